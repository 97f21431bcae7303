"""Edge list / adjacency list conversion and marker remapping."""
import collections
import copy

RULE = "one state per distinct (edge or adjacency lists, options)"
MARKS = ["a", "b", "B", "10", "9", "2", 2, 3, 10, "u7", "x y", -1, 0, 1.5, "é", "a ", " a", "a\t", "A", "", "0", "01", "1", "u_7", "x  y", "None", None, True, "ß", "\u0130", "e\u0301"]


def edges(rng, k, marks):
    return [(rng.choice(marks), rng.choice(marks)) for _ in range(k)]


def convert(ctx):
    from dhg.utils import adj_list_to_edge_list, edge_list_to_adj_dict, edge_list_to_adj_list

    rng = ctx.rng
    marks = rng.sample(range(12), rng.randint(1, 8))
    if rng.random() < 0.4:          # markers may be anything that can be a key, also the falsy ones
        marks = rng.sample(MARKS + [(), ("a", 1), False, 0.0, b"", b"x", frozenset(), (0,)], rng.randint(1, 8))
    k = rng.choice([0, 1, 3, 10, 30])
    if rng.random() < 0.05:
        marks, k = rng.sample(range(10 ** 6), 1100), 4000
    es = edges(rng, k, marks)
    if rng.random() < 0.5:
        es = [list(e) for e in es]
    keep = copy.deepcopy(es)
    adj = edge_list_to_adj_list(es)
    dic = edge_list_to_adj_dict(es)
    ctx.ok(es == keep, "the edge list is not modified")
    want = {}
    for s, d in keep:
        want.setdefault(s, []).append(d)
    ctx.ok(dict(dic) == want, "the adjacency dictionary lists every edge in order", got=dict(dic), want=want)
    ctx.ok(adj == [[s] + ds for s, ds in want.items()], "the adjacency list has one line per source, every edge in order", got=adj, want=want)
    back = adj_list_to_edge_list(adj)
    ctx.ok(collections.Counter(back) == collections.Counter(map(tuple, keep)), "round trip keeps every edge with multiplicity", got=back, want=keep)
    if adj:
        adj[0].append(99)
        ctx.ok(dict(edge_list_to_adj_dict(es)) == want, "results are independent")
    lines = [[rng.choice(marks) for _ in range(rng.choice([0, 1, 2, 4]))] for _ in range(rng.randint(0, 6))]
    keep = copy.deepcopy(lines)
    ctx.ok(adj_list_to_edge_list(lines) == [(x[0], y) for x in keep if x for y in x[1:]], "edges of every line in order", lines=keep)
    ctx.ok(lines == keep, "the adjacency list is not modified")
    ctx.event("convert")
    ctx.state(es, lines)


def maps(lists, flat, bip):
    """Reference maps: markers as strings, numbered in sorted order, over all lists."""
    if bip:
        us = sorted({str(l[0]) for x in lists for l in x if len(l)})
        vs = sorted({str(v) for x in lists for l in x for v in l[1:]})
        return [{m: i for i, m in enumerate(us)}, {m: i for i, m in enumerate(vs)}]
    return [{m: i for i, m in enumerate(sorted({str(v) for x in lists for l in x for v in l}))}]


def remap(ctx):
    from dhg.utils import remap_adj_list, remap_adj_lists, remap_edge_list, remap_edge_lists

    rng = ctx.rng
    bip, ret = rng.random() < 0.5, rng.random() < 0.6
    adj, many = rng.random() < 0.5, rng.random() < 0.5
    marks = rng.sample(MARKS, rng.randint(1, 10))
    k = rng.randint(1, 3) if many else 1
    lone = False
    big = rng.random() < 0.05
    if big:
        marks = marks + rng.sample(range(10 ** 5), 1100) + ["u%d" % i for i in rng.sample(range(10 ** 5), 300)]
    if adj:
        lists = []
        for _ in range(k):
            x = [[rng.choice(marks) for _ in range(rng.choice([0, 1, 2, 3, 5, 200 if big else 4]))] for _ in range(1100 if big else rng.randint(0, 6))]
            lone = lone or any(len(l) == 1 for l in x)
            lists.append(x)
        f = remap_adj_lists if many else remap_adj_list
    else:
        lists = [edges(rng, 3000 if big else rng.choice([0, 1, 4, 12]), marks) for _ in range(k)]
        if not bip and rng.random() < 0.4:      # hyperedges are allowed in edge lists
            lists = [[tuple(rng.choice(marks) for _ in range(rng.randint(1, 4))) for _ in x] for x in lists]
        f = remap_edge_lists if many else remap_edge_list
    keep = copy.deepcopy(lists)
    kw = {}
    if bip or rng.random() < 0.3:
        kw["bipartite_graph"] = bip
    if ret or rng.random() < 0.3:
        kw["ret_map"] = ret
    r = f(*lists, **kw)
    ctx.ok(lists == keep, "the lists are not modified", got=lists, want=keep)
    m = maps(keep, None, bip)
    um, vm = m[0], m[-1]
    if ret:
        ctx.need(len(r) == 1 + len(m), "the maps are returned", got=len(r))
        ctx.ok([dict(x) for x in r[1:]] == m, "markers are numbered 0..n-1 in sorted order, consistently over all lists", got=r[1:], want=m)
        r = r[0]
    seq = list if adj else tuple
    want = [[seq([um[str(v)] if i == 0 else vm[str(v)] for i, v in enumerate(l)]) for l in x] for x in keep]
    got = r if many else [r]
    ctx.ok([[list(l) for l in x] for x in got] == [[list(l) for l in x] for x in want], "every marker is replaced by its number in place",
           got=got, want=want, lists=keep, function=f.__name__, bipartite=bip)
    ctx.ok(all(isinstance(l, (tuple, list)) for x in got for l in x), "lines are sequences")
    ctx.event(f.__name__)
    if big:
        ctx.event("thousands of markers")
    if lone:
        ctx.event("lone vertex")
    ctx.state(f.__name__, repr(keep), bip, ret)
    ctx.sample({"function": f.__name__, "lists": keep, "result": got})


SCENARIOS = [("convert", convert, 200, 4000), ("remap", remap, 400, 8000)]
REQUIRED_EVENTS = {"convert": 100, "remap_adj_list": 20, "remap_adj_lists": 20, "remap_edge_list": 20, "remap_edge_lists": 20, "lone vertex": 20, "thousands of markers": 4}
