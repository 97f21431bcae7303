"""Random generators: well-formed, exact sizes, stated law, refusals, termination."""
import collections
import itertools
import math

from lib import gmodel as G
from lib import hmodel as H
from lib.ref import kl, lagged

RULE = "one state per distinct (generator, arguments, produced edge set)"


def graph_of(ctx, g, kind, n, m=None):
    """Observe a generated graph and return its canonical edges."""
    e, w = g.e
    es = [tuple(sorted(x)) if kind == "g" else tuple(x) for x in e]
    ctx.ok(len(set(es)) == len(es) == g.num_e, "edges are distinct", got=e)
    lim = (n, m if kind == "b" else n)
    ctx.ok(all(0 <= a < lim[0] and 0 <= b < lim[1] for a, b in e), "edges are in range", got=e)
    if kind != "b":
        ctx.ok(all(a != b for a, b in e), "no self-loops", got=e)
    ctx.ok(all(x == 1 for x in w), "weights are 1")
    gm = G.GM(kind, n, m)
    gm.w = {x: 1.0 for x in es}
    G.observe(ctx, g, gm, 0.15)
    return es


def total(kind, n, m=None):
    return {"g": n * (n - 1) // 2, "d": n * (n - 1), "b": n * (m or 0)}[kind]


def gens():
    import dhg.random as R

    return {"graph_Gnp": ("g", R.graph_Gnp), "graph_Gnp_fast": ("g", R.graph_Gnp_fast), "digraph_Gnp": ("d", R.digraph_Gnp),
            "digraph_Gnp_fast": ("d", R.digraph_Gnp_fast), "bigraph_Gnp": ("b", R.bigraph_Gnp)}


def gnp(ctx):
    import dhg

    rng = ctx.rng
    name = rng.choice(sorted(gens()))
    kind, f = gens()[name]
    n = rng.choice([2, 2, 3, 5, 8, 13])
    m = rng.choice([2, 3, 7, 11]) if kind == "b" else None
    p = rng.choice([0, 1, 0.0, 1.0, 1e-9, 1e-20, 1e-300, 1 - 1e-9, 1 - 2 ** -53, rng.random(), 0.5])
    args = (n, p) if m is None else (n, m, p)
    g = f(*args)
    ctx.need(type(g) is {"g": dhg.Graph, "d": dhg.DiGraph, "b": dhg.BiGraph}[kind], "class of the result")
    ctx.need(g.num_v == (n if m is None else m) and (m is None or g.num_u == n), "vertex counts")
    es = graph_of(ctx, g, kind, n, m)
    if p in (0, 1e-300, 1e-20):
        ctx.ok(not es, "probability 0 gives no edge", got=es)
    if p in (1, 1 - 2 ** -53):
        ctx.ok(len(es) == total(kind, n, m), "probability 1 gives all edges", got=len(es), want=total(kind, n, m))
    for bad in (-0.1, 1.1):
        ctx.raises(lambda: f(*args[:-1], bad), "probability outside [0, 1] is refused")
    ctx.raises(lambda: f(*((1,) + args[1:])), "fewer than two vertices are refused")
    if m is not None:
        ctx.raises(lambda: f(n, 1, p), "fewer than two vertices are refused")
    ctx.event(name)
    ctx.state(name, args, sorted(es))


def gnm(ctx):
    import dhg
    import dhg.random as R

    rng = ctx.rng
    name, kind, f = rng.choice([("graph_Gnm", "g", R.graph_Gnm), ("digraph_Gnm", "d", R.digraph_Gnm), ("bigraph_Gnm", "b", R.bigraph_Gnm)])
    n = rng.choice([2, 2, 3, 5, 8, 13])
    m = rng.choice([2, 3, 7, 11]) if kind == "b" else None
    tot = total(kind, n, m)
    k = rng.choice([0, 1, tot, tot - 1, rng.randint(0, tot)])
    args = (n, k) if m is None else (n, m, k)
    g = f(*args)
    ctx.need(type(g) is {"g": dhg.Graph, "d": dhg.DiGraph, "b": dhg.BiGraph}[kind], "class of the result")
    ctx.need(g.num_v == (n if m is None else m) and (m is None or g.num_u == n), "vertex counts")
    es = graph_of(ctx, g, kind, n, m)
    ctx.ok(len(es) == k, "exactly the asked number of edges", got=len(es), want=k, args=args)
    ctx.raises(lambda: f(*args[:-1], tot + 1), "more edges than possible are refused")
    ctx.raises(lambda: f(*((1,) + args[1:])), "fewer than two vertices are refused")
    ctx.event(name)
    ctx.state(name, args, sorted(es))
    ctx.sample({name: args, "edges": es[:8]})


def hg_of(ctx, hg, n):
    import dhg

    ctx.need(type(hg) is dhg.Hypergraph and hg.num_v == n, "class and vertex count of the result")
    e, w = hg.e
    es = [tuple(sorted(x)) for x in e]
    ctx.ok(len(set(es)) == len(es) == hg.num_e, "hyperedges are distinct", got=e)
    ctx.ok(all(len(set(x)) == len(x) and 0 <= min(x) and max(x) < n for x in es), "hyperedges are vertex subsets", got=e)
    ctx.ok(all(x == 1 for x in w), "weights are 1")
    hm = H.HM(n)
    hm.add(es, [1.0] * len(es), "max")
    if es:
        H.observe(ctx, hg, hm, 0.15)
    return es


def uniform(ctx):
    import dhg.random as R

    rng = ctx.rng
    n = rng.choice([2, 3, 4, 5, 7, 9])
    k = rng.randint(2, n)
    tot = math.comb(n, k)
    if rng.random() < 0.5:
        p = rng.choice([0, 1, 0.5, rng.random()])
        es = hg_of(ctx, R.uniform_hypergraph_Gnp(k, n, p), n)
        ctx.ok(p != 0 or not es, "probability 0 gives no hyperedge", got=es)
        ctx.ok(p != 1 or len(es) == tot, "probability 1 gives all hyperedges", got=len(es), want=tot)
        for bad in (-0.1, 1.1):
            ctx.raises(lambda: R.uniform_hypergraph_Gnp(k, n, bad), "probability outside [0, 1] is refused")
        ctx.raises(lambda: R.uniform_hypergraph_Gnp(1, n, p), "size below two is refused")
        ctx.event("uniform Gnp")
        ctx.state("unp", k, n, p, sorted(es))
    else:
        num = rng.choice([1, tot, rng.randint(1, tot)])
        es = hg_of(ctx, R.uniform_hypergraph_Gnm(k, n, num), n)
        ctx.ok(len(es) == num, "exactly the asked number of hyperedges", got=len(es), want=num)
        ctx.raises(lambda: R.uniform_hypergraph_Gnm(k, n, tot + 1), "more hyperedges than possible are refused")
        ctx.raises(lambda: R.uniform_hypergraph_Gnm(k, n, 0), "no hyperedge is refused")
        ctx.raises(lambda: R.uniform_hypergraph_Gnm(n + 1, n, 1), "size above the vertex count is refused")
        ctx.raises(lambda: R.uniform_hypergraph_Gnm(1, n, 1), "size below two is refused")
        ctx.event("uniform Gnm")
        ctx.state("unm", k, n, num, sorted(es))
    ctx.ok(all(len(x) == k for x in es), "all hyperedges have the asked size", k=k, got=es)


def mixed(ctx):
    import dhg.random as R

    rng = ctx.rng
    n = rng.choice([2, 3, 4, 5, 6])
    method = rng.choice(["uniform", "low_order_first", "high_order_first", "custom"])
    sizes = list(range(2, n + 1))
    probs = None
    ok = set(sizes)
    if method == "custom":
        probs = [rng.choice([0, 0, 0.5, 1, 3]) for _ in sizes]
        if not any(probs):
            probs[rng.randrange(len(probs))] = 1
        ok = {s for s, q in zip(sizes, probs) if q > 0}
    tot = sum(math.comb(n, s) for s in ok)
    num = rng.choice([1, tot, rng.randint(1, tot), rng.randint(1, tot)])
    keep = None if probs is None else list(probs)
    if method == "low_order_first" and rng.random() < 0.5:
        hg = R.hypergraph_Gnm(n, num)
    else:
        hg = R.hypergraph_Gnm(n, num, method, probs)
    ctx.ok(probs == keep, "the probability list is not modified", got=probs, want=keep)
    es = hg_of(ctx, hg, n)
    ctx.ok(len(es) == num, "exactly the asked number of hyperedges", got=len(es), want=num, method=method)
    ctx.ok(all(len(x) in ok for x in es), "only sizes with positive probability", got=es, ok=sorted(ok))
    ctx.raises(lambda: R.hypergraph_Gnm(n, tot + 1, method, probs), "more hyperedges than possible are refused")
    ctx.raises(lambda: R.hypergraph_Gnm(n, 0, method, probs), "no hyperedge is refused")
    ctx.raises(lambda: R.hypergraph_Gnm(n, 1, "sideways"), "unknown method is refused")
    ctx.raises(lambda: R.hypergraph_Gnm(n, 1, "custom"), "custom needs probabilities")
    ctx.raises(lambda: R.hypergraph_Gnm(n, 1, "custom", [1.0] * n), "one probability per size is needed")
    ctx.event("mixed " + method)
    ctx.state(n, num, method, probs, sorted(es))


# -- laws -----------------------------------------------------------------------
def binom(ctx, key, hits, trials, prob, **kw):
    """Chernoff: P(deviation at least this large) <= 2 exp(-trials * KL); alarm below 2 exp(-32) = 3e-14."""
    ctx.ok(trials * kl(hits / trials, prob) < 32, key, hits=hits, trials=trials, mean=round(trials * prob, 1), **kw)


def law_pairs(ctx, key, draws, space, q, q2, **kw):
    """Every possible edge appears with probability q, every two together with q2."""
    R = len(draws)
    cnt = collections.Counter(x for d in draws for x in d)
    for x in space:
        binom(ctx, key + ": every edge is equally likely", cnt[x], R, q, edge=x, **kw)
    if len(space) > 1:
        for _ in range(12):
            a, b = ctx.rng.sample(space, 2)
            binom(ctx, key + ": edges are chosen independently", sum(1 for d in draws if a in d and b in d), R, q2, edges=(a, b), **kw)


def law_graph(ctx):
    import dhg.random as R

    rng = ctx.rng
    reps = 2500 if ctx.thorough else 900
    name = sorted(gens())[ctx.idx % 5]
    kind, f = gens()[name]
    n, m = rng.choice([3, 4, 6]), (rng.choice([2, 3, 5]) if kind == "b" else None)
    args = (n,) if m is None else (n, m)
    space = {"g": list(itertools.combinations(range(n), 2)), "d": list(itertools.permutations(range(n), 2)),
             "b": list(itertools.product(range(n), range(m or 0)))}[kind]
    p = rng.choice([0.15, 0.3, 0.5, 0.7, 0.9])
    canon = (lambda e: tuple(sorted(e))) if kind == "g" else tuple
    draws = [{canon(e) for e in f(*args, p).e[0]} for _ in range(reps)]
    law_pairs(ctx, name, draws, space, p, p * p, n=n, m=m, p=p)
    num = rng.choice([1, len(space) - 1, len(space) - 1, rng.randint(1, len(space) - 1)])
    g = {"g": R.graph_Gnm, "d": R.digraph_Gnm, "b": R.bigraph_Gnm}[kind]
    draws = [{canon(e) for e in g(*args, num).e[0]} for _ in range(reps)]
    t = len(space)
    law_pairs(ctx, g.__name__, draws, space, num / t, num * (num - 1) / (t * (t - 1)), n=n, m=m, num=num)
    ctx.event("law " + kind)
    ctx.state(name, n, m, p, num)


def law_hg(ctx):
    import dhg.random as R

    rng = ctx.rng
    reps = 2500 if ctx.thorough else 800
    n = rng.choice([4, 5])
    which = ctx.idx % 3
    canon = lambda e: tuple(sorted(e))  # noqa: E731
    if which < 2:
        k = rng.randint(2, n - 1)
        space = list(itertools.combinations(range(n), k))
        t = len(space)
        if which == 0:
            p = rng.choice([0.2, 0.5, 0.8])
            draws = [{canon(e) for e in R.uniform_hypergraph_Gnp(k, n, p).e[0]} for _ in range(reps)]
            law_pairs(ctx, "uniform Gnp", draws, space, p, p * p, n=n, k=k, p=p)
        else:
            num = rng.choice([1, 2, t - 1, t - 1, rng.randint(1, t - 1)])
            draws = [{canon(e) for e in R.uniform_hypergraph_Gnm(k, n, num).e[0]} for _ in range(reps)]
            law_pairs(ctx, "uniform Gnm", draws, space, num / t, num * (num - 1) / (t * (t - 1)), n=n, k=k, num=num)
        ctx.state(which, n, k)
    else:
        method = ["uniform", "low_order_first", "high_order_first", "custom"][ctx.idx // 3 % 4]
        sizes = list(range(2, n + 1))
        probs = [rng.choice([0.5, 1, 2]) for _ in sizes] if method == "custom" else None
        w = {"uniform": [math.comb(n, s) for s in sizes], "low_order_first": [3.0 ** -i for i in range(len(sizes))],
             "high_order_first": [3.0 ** -i for i in range(len(sizes))][::-1], "custom": probs}[method]
        draws = [canon(R.hypergraph_Gnm(n, 1, method, probs).e[0][0]) for _ in range(reps)]
        cnt = collections.Counter(len(d) for d in draws)
        for s, x in zip(sizes, w):
            binom(ctx, "hyperedge sizes follow the method", cnt[s], reps, x / sum(w), size=s, method=method, n=n, probs=probs)
        cnt = collections.Counter(draws)
        for s, x in zip(sizes, w):
            for e in itertools.combinations(range(n), s):
                binom(ctx, "hyperedges of a size are equally likely", cnt[e], reps, x / sum(w) / math.comb(n, s), edge=e, method=method)
        ctx.state(which, n, method, probs)
    ctx.event("law hypergraph")


def law_outcomes(ctx):
    """Whole outcomes: every possible edge set appears with exactly its probability, jointly and not only edge by edge."""
    import dhg.random as R

    rng = ctx.rng
    reps = 6000 if ctx.thorough else 1500
    names = sorted(gens()) + ["graph_Gnm", "digraph_Gnm", "bigraph_Gnm", "uniform_hypergraph_Gnp", "uniform_hypergraph_Gnm", "hypergraph_Gnm"]
    name = names[ctx.idx % len(names)]
    f = getattr(R, name)
    kind = {"g": "g", "d": "d", "b": "b"}.get(name[0], "h")
    m = k = None
    if kind == "h":
        n = rng.choice([3, 4, 4, 5]) if name.startswith("uni") else 3
        k = rng.randint(2, n - 1)
        space = list(itertools.combinations(range(n), k)) if name.startswith("uni") else [(0, 1), (0, 2), (1, 2), (0, 1, 2)]
    else:
        n, m = {"g": (rng.choice([3, 4]), None), "d": (rng.choice([2, 3]), None), "b": rng.choice([(2, 2), (2, 3), (3, 2)])}[kind]
        space = {"g": list(itertools.combinations(range(n), 2)), "d": list(itertools.permutations(range(n), 2)),
                 "b": list(itertools.product(range(n), range(m or 0)))}[kind]
    t = len(space)
    if name.endswith("Gnm"):
        num = rng.choice([x for x in range(1, t + 1) if math.comb(t, x) <= 45 and (x < t or rng.random() < 0.2)] or [1])
        if rng.random() < 0.4 and name != "hypergraph_Gnm":
            num = t - 1
    if name.endswith("Gnm") and name != "hypergraph_Gnm":
        law = {frozenset(c): 1 / math.comb(t, num) for c in itertools.combinations(space, num)}
        args = ((k, n, num) if kind == "h" else (n, num) if m is None else (n, m, num))
    elif name == "hypergraph_Gnm":
        method = rng.choice(["uniform", "low_order_first", "high_order_first", "custom"])
        probs = [rng.choice([0.5, 1, 2]) for _ in range(2)] if method == "custom" else None
        w = {"uniform": [3, 1], "low_order_first": [1, 1 / 3], "high_order_first": [1 / 3, 1], "custom": probs}[method]
        q = {e: (w[0] / 3 if len(e) == 2 else w[1]) / sum(w) for e in space}
        law = {}
        for seq in itertools.permutations(space, num):          # drawn one after the other until enough different ones are there
            p, left = 1.0, 1.0
            for e in seq:
                p, left = p * q[e] / left, left - q[e]
            law[frozenset(seq)] = law.get(frozenset(seq), 0) + p
        args = (n, num, method, probs)
    else:
        p = rng.choice([0.25, 0.5, 0.75])
        law = {frozenset(c): p ** len(c) * (1 - p) ** (t - len(c)) for r in range(t + 1) for c in itertools.combinations(space, r)}
        args = ((k, n, p) if kind == "h" else (n, p) if m is None else (n, m, p))
    canon = tuple if kind in "db" else (lambda e: tuple(sorted(e)))
    cnt = collections.Counter(frozenset(canon(e) for e in f(*args).e[0]) for _ in range(reps))
    ctx.ok(set(cnt) <= set(law), "only possible outcomes", got=[sorted(x) for x in set(cnt) - set(law)][:3], generator=name, args=args)
    for x, p in law.items():
        if p < 1 - 1e-12:
            binom(ctx, "every outcome as a whole has its probability", cnt[x], reps, p, outcome=sorted(x), generator=name, args=args)
        else:
            ctx.ok(cnt[x] == reps, "the only outcome", generator=name, args=args)
    ctx.event("whole outcomes")
    ctx.state("outcomes", name, args)


def features(ctx):
    import dhg
    import numpy as np
    import torch

    rng = ctx.rng
    n, names = rng.randint(1, 30), rng.sample([0, 1, 2, 5, 9, -3, 40], rng.randint(1, 5))
    lab = [rng.choice(names) for _ in range(n)]
    cls = sorted(set(lab))
    arg = rng.choice([lambda: list(lab), lambda: np.array(lab), lambda: torch.tensor(lab)])()
    X = dhg.random.normal_features(arg, noise=0.0)
    want = np.array([[1.0 if c == y else 0.0 for c in cls] for y in lab])
    ctx.ok(isinstance(X, torch.Tensor) and X.dtype == torch.float32 and tuple(X.shape) == want.shape, "a float matrix, one column per class")
    ctx.ok(np.array_equal(X.numpy(), want), "noise-free features are the class centres", labels=lab, got=X.tolist())
    ctx.ok(list(map(int, arg)) == lab, "labels are not modified")
    s = rng.choice([0.1, 1.0, 3.0])
    big = [lab[i % n] for i in range(2000)]
    Y = (dhg.random.normal_features(big) if s == 1.0 and rng.random() < 0.5 else dhg.random.normal_features(big, s)).numpy()
    want = np.array([[1.0 if c == y else 0.0 for c in cls] for y in big])
    Z0 = (Y - want) / s
    N = Z0.shape[0]
    for j in range(Z0.shape[1]):
        z = Z0[:, j]
        ctx.ok(abs(z.mean()) < 7 / math.sqrt(N), "noise has mean 0 around the class centre", mean=float(z.mean()))
        ctx.ok(abs(z.var() - 1) < 7 * math.sqrt(2 / N) + 0.01, "noise has the asked deviation", var=float(z.var()), noise=s)
        ctx.ok(len(set(z.tolist())) > N // 2, "noise differs between vertices")
    if Z0.shape[1] > 1:
        ctx.ok(abs(np.corrcoef(Z0[:, 0], Z0[:, 1])[0, 1]) < 7 / math.sqrt(N), "noise differs between columns")
    ctx.raises(lambda: dhg.random.normal_features("abc"), "labels of another type are refused")
    ctx.raises(lambda: dhg.random.normal_features([[0, 1], [1, 0]]), "labels must be 1-D")
    ctx.event("features")
    ctx.state(lab, s)


def seeds(ctx):
    """P(same) across two draws without reseeding is negligible: generators do use randomness."""
    import dhg.random as R

    a, b = R.graph_Gnm(40, 200), R.graph_Gnm(40, 200)
    ctx.ok(set(map(tuple, a.e[0])) != set(map(tuple, b.e[0])), "two draws differ")
    ctx.state("two draws")


def large(ctx):
    """Many vertices: sizes, the number of edges and where they lie follow the law."""
    import dhg
    import dhg.random as R

    rng = ctx.rng
    names = sorted(gens()) + ["graph_Gnm", "digraph_Gnm", "bigraph_Gnm", "uniform Gnm", "uniform Gnp", "mixed"]
    name = names[ctx.idx % len(names)]
    n, m, k = rng.choice([65, 130, 300, 1100]), None, 2
    if name in gens() or name.endswith("_Gnm"):
        kind = {"g": "g", "d": "d", "b": "b"}[name[0]]
        m = rng.choice([70, 260, 1030]) if kind == "b" else None
        if name == "digraph_Gnp":
            n = min(n, 300)
        tot = total(kind, n, m)
        want = min(rng.choice([3000, 6000]), tot // 2)
        if name in gens():
            p = want / tot
            g = gens()[name][1](*((n, p) if m is None else (n, m, p)))
            binom(ctx, "the number of edges follows the probability", g.num_e, tot, p, name=name, n=n, m=m)
            if tot <= 50000:
                have = {tuple(sorted(e)) if kind == "g" else tuple(e) for e in g.e[0]}
                bad = lagged([(a, b) in have for a in range(n) for b in range(m or n) if (a < b if kind == "g" else m is not None or a != b)], p)
                ctx.ok(not bad, "edges appear independently of others at any distance", lags=bad[:4], name=name, n=n, m=m, p=p)
                ctx.event("lags")
        else:
            g = getattr(R, name)(*((n, want) if m is None else (n, m, want)))
            ctx.ok(g.num_e == want, "exactly the asked number of edges", got=g.num_e, want=want)
        es = graph_of(ctx, g, kind, n, m)
        ctx.need(g.num_v == (n if m is None else m) and (m is None or g.num_u == n), "vertex counts")
        # the edges are spread evenly: over sources, over destinations and over blocks of pairs
        B = 8
        cell = lambda a, b: (a * B // n, b * B // (m or n))
        space = collections.Counter()
        for a in range(n):
            for b in range(m or n):
                if (a < b if kind == "g" else m is not None or a != b):
                    space[cell(a, b)] += 1
        cnt = collections.Counter(cell(*e) for e in es)
        N = len(es)
        for c in space:
            binom(ctx, "edges lie anywhere equally likely", cnt[c], N, space[c] / tot, name=name, n=n, m=m, cell=c)
        ends = collections.Counter()
        for a, b in es:
            ends["u", a] += 1
            ends["v" if kind != "g" else "u", b] += 1
        for v in range(n):
            q = (2 / n) if kind == "g" else 1 / n
            binom(ctx, "every vertex has its share of the edges", ends["u", v], N, q, name=name, vertex=v)
        for v in range((m or n) if kind != "g" else 0):
            binom(ctx, "every vertex has its share of the edges", ends["v", v], N, 1 / (m or n), name=name, vertex=v)
    else:
        if name == "uniform Gnp":
            k, n = rng.choice([(2, 70), (3, 30), (3, 24), (4, 15)])
            tot = math.comb(n, k)
            p = rng.choice([0.3, 0.6])
            hg = R.uniform_hypergraph_Gnp(k, n, p)
            binom(ctx, "the number of hyperedges follows the probability", hg.num_e, tot, p, k=k, n=n)
        elif name == "uniform Gnm":
            k, n = rng.choice([(2, 300), (3, 130), (5, 70), (20, 40), (50, 1100), (129, 130)])
            num = min(rng.choice([1500, 3000]), math.comb(n, k) - 2)
            hg = R.uniform_hypergraph_Gnm(k, n, num)
            ctx.ok(hg.num_e == num, "exactly the asked number of hyperedges", got=hg.num_e, want=num)
        else:
            n, num = rng.choice([(12, 2000), (30, 1500), (70, 2500), (300, 1500)])
            k = None
            how = rng.choice(["uniform", "low_order_first", "high_order_first", "custom"])
            probs = [1.0 if s in (3, 4, 7) else 0.0 for s in range(2, n + 1)] if how == "custom" else None
            hg = R.hypergraph_Gnm(n, min(num, 1500) if how == "custom" else num, how, probs)
            ctx.ok(hg.num_e == (min(num, 1500) if how == "custom" else num), "exactly the asked number of hyperedges", got=hg.num_e, want=num, method=how)
        es = hg_of(ctx, hg, n)
        if k:
            ctx.ok(all(len(e) == k for e in es), "all hyperedges have the asked size")
        elif how == "custom":
            ctx.ok(all(len(e) in (3, 4, 7) for e in es), "only sizes with positive probability")
        size = sum(map(len, es))
        cnt = collections.Counter(v for e in es for v in e)
        if k:
            for v in range(n):
                binom(ctx, "every vertex has its share of the hyperedges", cnt[v], len(es), k / n, vertex=v, name=name)
        else:      # sampled without repetition: the spread is at most that of independent draws
            for v in range(n):
                binom(ctx, "every vertex has its share of the hyperedges", cnt[v], size, 1 / n, vertex=v, name=name)
    ctx.event("large")
    ctx.state("large", name, n, m, len(es))



def dense(ctx):
    """Almost every possible edge asked for: which ones are left out is random too."""
    import dhg.random as R

    rng = ctx.rng
    name = ["graph_Gnm", "digraph_Gnm", "bigraph_Gnm", "uniform", "uniform"][ctx.idx % 5]
    n, k = rng.choice([(10, 3), (12, 2), (11, 4), (8, 4), (20, 2), (13, 11)]) if name == "uniform" else (rng.choice([12, 18, 27]), 2)
    m = rng.choice([9, 30]) if name[0] == "b" else None
    tot = math.comb(n, k) if name == "uniform" else total(name[0], n, m)
    left = rng.choice([1, 2, rng.randint(1, max(1, tot // 10)), rng.randint(1, tot // 2)])
    draws = 60
    every = [tuple(x) for x in itertools.combinations(range(n), k)] if k > 2 or name in ("uniform", "graph_Gnm") else \
        [(a, b) for a in range(n) for b in range(m or n) if m is not None or a != b]
    gone = collections.Counter()
    for _ in range(draws):
        if name == "uniform":
            got = set(hg_of(ctx, R.uniform_hypergraph_Gnm(k, n, tot - left), n))
        else:
            got = set(graph_of(ctx, getattr(R, name)(*((n, tot - left) if m is None else (n, m, tot - left))), name[0], n, m))
        ctx.need(len(got) == tot - left, "exactly the asked number of edges", got=len(got), want=tot - left, name=name)
        gone.update(x for x in every if x not in got)
    for x in every:
        binom(ctx, "every possible edge is left out equally often", gone[x], draws, left / tot, name=name, n=n, k=k, left=left, edge=x)
    ctx.event("dense")
    ctx.state("dense", name, n, k, m, left)


SCENARIOS = [("dense", dense, 15, 150), ("large", large, 22, 220), ("gnp", gnp, 150, 2500), ("gnm", gnm, 150, 2500), ("uniform", uniform, 100, 1500), ("mixed", mixed, 120, 2000),
             ("law graph", law_graph, 10, 60), ("law hypergraph", law_hg, 18, 90), ("law outcomes", law_outcomes, 33, 165), ("features", features, 15, 200), ("seeds", seeds, 1, 3)]
REQUIRED_EVENTS = {"dense": 8, "graph_Gnp": 10, "graph_Gnp_fast": 10, "digraph_Gnp": 10, "digraph_Gnp_fast": 10, "bigraph_Gnp": 10,
                   "graph_Gnm": 10, "digraph_Gnm": 10, "bigraph_Gnm": 10, "uniform Gnp": 10, "uniform Gnm": 10, "law g": 2, "law d": 2, "law b": 1, "whole outcomes": 11}
ASSUMPTIONS = ["frequency oracles alarm only when the Chernoff bound puts the deviation below 3e-14 (noise moments: 7 standard deviations)"]
