"""Reference model of a (grouped, weighted) hypergraph and the monitors of its read views."""
import copy
import re

import numpy as np

from .ref import close, diff, dn, inv, merge, pick_w, same_weighted

GROUPS = ["main", "g2", "other"]
MORE = ["main2", "Main", "e", "H", "0", "a b", "x_of_group", "g", "zz", "w_e"]      # other names, prefixes of each other
OPS = ["mean", "sum", "max"]


class HM:
    def __init__(self, n):
        self.n, self.g, self.vw, self.names = n, {}, [1.0] * n, GROUPS

    def copy(self):
        return copy.deepcopy(self)

    def add(self, es, ws, op, group="main"):
        for e, w in zip(es, ws):
            k = tuple(sorted(e))
            d = self.g.setdefault(group, {})
            d[k] = merge(op, d[k], w) if k in d else float(w)

    def remove(self, es, group=None):
        for name in ([group] if group else list(self.g)):
            for e in es:
                self.g[name].pop(tuple(sorted(e)), None)

    def all(self, group=None):
        if group is not None:
            return list(self.g[group].items())
        return [x for d in self.g.values() for x in d.items()]

    def fp(self):
        return (self.n, tuple(sorted((k, tuple(sorted((e, round(w, 3)) for e, w in d.items()))) for k, d in self.g.items())),
                tuple(self.vw))


def rand_vw(rng, n):
    """Vertex weights, zero among them."""
    return [0.0 if rng.random() < 0.15 else float(pick_w(rng)) for _ in range(n)]


def rand_e(rng, n):
    k = min(n, rng.choice([1, 2, 2, 3, 3, 4, 6, n]))
    return rng.sample(range(n), k)


def rand_es(rng, hm, k, group=None):
    have = [e for d in hm.g.values() for e in d]
    out = []
    for _ in range(k):
        r = rng.random()
        if r < 0.35 and have:
            e = list(rng.choice(have))
            rng.shuffle(e)
        elif r < 0.5 and out:
            e = list(rng.choice(out))
            rng.shuffle(e)
        else:
            e = rand_e(rng, hm.n)
        out.append(e)
    return out


def disguise(rng, es):
    r = rng.random()
    if r < 0.45:
        return [list(e) for e in es]
    if r < 0.8:
        return [tuple(e) for e in es]
    return tuple(list(e) for e in es)


def rand_model(rng, n=None, groups=None, ne=None, min_size=1, unit=False, isolated=True, cover=False, vw=False):
    big = not n and ne is None and rng.random() < 0.05      # now and then a much larger one
    n = n or (rng.choice([13, 40, 70]) if big else rng.randint(max(2, min_size), 9))
    hm = HM(n)
    if groups is None:
        if rng.random() < 0.25:
            hm.names = ["main"] + rng.sample(MORE, rng.choice([2, 3, 6]))
        groups = rng.sample(hm.names, rng.choice([1, 1, 2, 3]))
        if rng.random() < 0.03:                             # a great many groups
            hm.names = ["main"] + ["group %d" % i for i in range(rng.choice([17, 34]))]
            groups = rng.sample(hm.names, len(hm.names) - 1)
    pool = n if not isolated or rng.random() < 0.5 or n < 4 else n - rng.randint(1, max(1, n // 3))
    pool = max(pool, min_size, 1)
    for gname in groups:
        d = hm.g.setdefault(gname, {})
        for _ in range(rng.randint(1, 40 if big else 8) if ne is None else ne):
            k = max(min_size, min(pool, rng.choice([1, 2, 2, 3, 4, pool])))
            e = tuple(sorted(rng.sample(range(pool), k)))
            d[e] = 1.0 if unit else float(pick_w(rng))
    if cover:
        for v in range(n):
            if not any(v in e for e, _ in hm.all()):
                o = rng.choice([u for u in range(n) if u != v])
                hm.g[groups[0]][tuple(sorted((u for u in (v, o))))] = 1.0
    if vw:
        hm.vw = rand_vw(rng, n)
    return hm


def build(dhg, hm):
    hg = dhg.Hypergraph(hm.n, v_weight=list(hm.vw))
    for name, d in hm.g.items():
        if d:
            hg.add_hyperedges([list(e) for e in d], [float(w) for w in d.values()], group_name=name)
    return hg


def mats(hg_e, n):
    """H, w of a (edge list, weights) pair *in the order the hypergraph reports them*."""
    e, w = hg_e
    H = np.zeros((n, len(e)))
    for j, x in enumerate(e):
        for v in x:
            H[v, j] += 1
    return H, np.array(w, dtype=float)


def ref(H, w, what):
    dv, de = H @ w, H.sum(0)
    n = H.shape[0]
    if what == "H":
        return H
    if what == "H_T":
        return H.T
    if what == "W_e":
        return np.diag(w)
    if what == "D_v":
        return np.diag(dv)
    if what == "D_v_neg_1":
        return np.diag(inv(dv, -1.0))
    if what == "D_v_neg_1_2":
        return np.diag(inv(dv, -0.5))
    if what == "D_e":
        return np.diag(de)
    if what == "D_e_neg_1":
        return np.diag(inv(de, -1.0))
    core = (H * (w * inv(de, -1.0))) @ H.T
    s = inv(dv, -0.5)
    if what == "L_HGNN":
        return s[:, None] * core * s[None, :]
    if what == "L_sym":
        return np.eye(n) - s[:, None] * core * s[None, :]
    if what == "L_rw":
        return np.eye(n) - inv(dv, -1.0)[:, None] * core
    raise KeyError(what)


MATS = ["H", "H_T", "W_e", "D_v", "D_v_neg_1", "D_v_neg_1_2", "D_e", "D_e_neg_1", "L_HGNN", "L_sym", "L_rw"]
VIEWS = ["e", "counts", "deg", "nbr", "triples", "W_v"] + MATS
STATE_VIEWS = [v for v in VIEWS if not v.startswith("L_")]


def check_view(ctx, hg, hm, v, group=None):
    rng, n = ctx.rng, hm.n
    sfx = "" if group is None else "_of_group"
    call = (lambda name: getattr(hg, name)) if group is None else (lambda name: getattr(hg, name + "_of_group")(group))
    e = hg.e if group is None else hg.e_of_group(group)
    if v == "e":
        ctx.ok(len(e[0]) == len(e[1]) and same_weighted(zip([tuple(sorted(x)) for x in e[0]], e[1]), hm.all(group)),
               "hyperedges" + sfx, got=e, want=hm.all(group), group=group)
        return
    H, w = mats(e, n)
    ne = H.shape[1]

    def eq(name, got, want):
        good = close(got, want)
        if good or n > 100 or ne > 100:
            ctx.ok(good, "view " + name + sfx, diff="" if good else diff(got, want), group=group)
        else:
            ctx.ok(good, "view " + name + sfx, diff=diff(got, want), got=dn(got).tolist(), want=np.asarray(want).tolist(),
                   model=hm.fp(), group=group)

    if v == "counts":
        if group is None:
            ctx.ok(hg.num_v == n and list(hg.v) == list(range(n)), "view vertices")
            ctx.ok(hg.num_e == len(hm.all()), "view num_e", got=hg.num_e, want=len(hm.all()))
            ctx.ok([int(x) for x in re.findall(r"\d+", repr(hg))] == [hm.n, len(hm.all())], "the representation tells the sizes", got=repr(hg))
            ctx.ok(sorted(hg.group_names) == sorted(hm.g) and hg.num_groups == len(hm.g), "view groups",
                   got=hg.group_names, want=list(hm.g))
        else:
            ctx.ok(hg.num_e_of_group(group) == len(hm.g[group]), "view num_e_of_group")
    elif v == "deg":
        eq("deg_v", call("deg_v"), H @ w)
        eq("deg_e", call("deg_e"), H.sum(0))
    elif v == "nbr":
        i = rng.randrange(n)
        want = np.nonzero(H[i])[0].tolist()
        a = [hg.nbr_e(i), hg.N_e(i).tolist()] if group is None else [hg.nbr_e_of_group(i, group), hg.N_e_of_group(i, group).tolist()]
        for x in a:
            ctx.ok(sorted(x) == want, "view hyperedges of a vertex" + sfx, got=x, want=want, vertex=i)
        if ne:
            j = rng.randrange(ne)
            want = sorted(set(e[0][j]))
            a = [hg.nbr_v(j), hg.N_v(j).tolist()] if group is None else [hg.nbr_v_of_group(j, group), hg.N_v_of_group(j, group).tolist()]
            for x in a:
                ctx.ok(sorted(x) == want, "view vertices of a hyperedge" + sfx, got=x, want=want, e=j)
    elif v == "triples":
        inc = sorted((int(i), int(j)) for i, j in zip(*np.nonzero(H)))
        a = sorted(zip(call("v2e_src").tolist(), call("v2e_dst").tolist(), call("v2e_weight").tolist()))
        ctx.ok([(x, y) for x, y, _ in a] == inc and all(abs(z - 1) < 1e-6 for _, _, z in a), "view v2e connections" + sfx)
        a = sorted(zip(call("e2v_dst").tolist(), call("e2v_src").tolist(), call("e2v_weight").tolist()))
        ctx.ok([(x, y) for x, y, _ in a] == inc and all(abs(z - 1) < 1e-6 for _, _, z in a), "view e2v connections" + sfx)
    elif v == "W_v":
        if group is None:
            eq("W_v", hg.W_v, np.diag(hm.vw))
            ctx.ok(close(hg.v_weight, hm.vw), "view v_weight", got=hg.v_weight, want=hm.vw)
    elif v in MATS:
        eq(v, call(v), ref(H, w, v))
    else:
        raise KeyError(v)
    ctx.event("view:" + v + sfx)


def observe(ctx, hg, hm, share=1.0, views=VIEWS):
    todo = [(v, gname) for v in views for gname in [None] + list(hm.g)]
    ctx.rng.shuffle(todo)
    for v, gname in todo:
        if share >= 1.0 or ctx.rng.random() < share:
            check_view(ctx, hg, hm, v, gname)


def edit(ctx, hg, hm):
    rng = ctx.rng
    r = rng.random()
    name = rng.choice(hm.names)
    if r < 0.45:
        es = rand_es(rng, hm, rng.choice([1, 1, 2, 3, 5]))
        op = rng.choice(OPS)
        kw = {} if name == "main" and rng.random() < 0.5 else {"group_name": name}
        arg = disguise(rng, es)
        if len(es) == 1 and rng.random() < 0.5:
            arg = list(es[0]) if rng.random() < 0.7 else tuple(es[0])
        x = rng.random()
        if x < 0.5:
            ws = [pick_w(rng) for _ in es]
            w = list(ws)
        elif x < 0.75:
            w = pick_w(rng)
            ws = [w] * len(es)
        else:
            w, ws = None, [1.0] * len(es)
        ctx.note("add", arg, w, op, kw)
        hg.add_hyperedges(arg, w, merge_op=op, **kw)
        hm.add(es, ws, op, kw.get("group_name", "main"))
        return "add"
    if r < 0.7:
        es = rand_es(rng, hm, rng.choice([0, 1, 1, 2]))
        arg = disguise(rng, es)
        if len(es) == 1 and rng.random() < 0.5:
            arg = list(es[0])
        gname = rng.choice([None] + list(hm.g))
        ctx.note("remove", arg, gname)
        if gname is None and rng.random() < 0.5:
            hg.remove_hyperedges(arg)
        else:
            hg.remove_hyperedges(arg, group_name=gname)
        hm.remove(es, gname)
        return "remove"
    if r < 0.78:
        ctx.note("remove_group", name)
        hg.remove_group(name)
        hm.g.pop(name, None)
        return "remove_group"
    if r < 0.82:
        ctx.note("clear")
        hg.clear()
        hm.g, hm.vw = {}, [1.0] * hm.n
        return "clear"
    if r < 0.92:
        vw = rand_vw(rng, hm.n)
        ctx.note("v_weight", vw)
        hg.v_weight = list(vw)
        hm.vw = vw
        return "v_weight"
    import torch

    ctx.note("to")
    hg.to(torch.device("cpu"))
    return "to"


def history(ctx, steps, views=STATE_VIEWS, share=None):
    import dhg

    rng = ctx.rng
    hm = HM(rng.choice([1, 2, 3, 4, 5, 7, 9]))
    if rng.random() < 0.2:
        hm.names = ["main"] + rng.sample(MORE, rng.choice([2, 3, 6]))
    kw = {}
    if rng.random() < 0.4:
        hm.vw = kw["v_weight"] = rand_vw(rng, hm.n)
    if rng.random() < 0.5:
        hg = dhg.Hypergraph(hm.n, **{k: list(v) for k, v in kw.items()})
    else:
        es = rand_es(rng, hm, rng.randint(1, 6))
        op = rng.choice(OPS)
        x = rng.random()
        ws = [pick_w(rng) for _ in es] if x < 0.6 else [2.0 if x < 0.75 else 1.0] * len(es)
        w = list(ws) if x < 0.6 else (2.0 if x < 0.75 else None)
        ctx.note("init", es, w, op, kw)
        hg = dhg.Hypergraph(hm.n, disguise(rng, es), w, merge_op=op, **{k: list(v) for k, v in kw.items()})
        hm.add(es, ws, op)
    share = rng.choice([0.0, 0.1, 0.4, 1.0]) if share is None else share
    observe(ctx, hg, hm, share, views)
    for _ in range(steps):
        what = edit(ctx, hg, hm)
        ctx.event("edit:" + what)
        ctx.state(hm.fp())
        observe(ctx, hg, hm, share, views)
    observe(ctx, hg, hm, 1.0, views)
    if len(hm.all()) >= 3:
        ctx.sample({"history": ctx.log[-10:], "final": hm.fp()})
    return hg, hm


def big(ctx, views=VIEWS):
    import dhg

    rng = ctx.rng
    hm = rand_model(rng, n=rng.randint(25, 40), ne=rng.randint(20, 40), vw=True)
    if ctx.idx % 4 == 0:      # indices beyond a byte, large hyperedges
        hm = rand_model(rng, n=rng.randint(257, 320), ne=rng.randint(30, 60), vw=True)
    hg = build(dhg, hm)
    observe(ctx, hg, hm, 1.0, views)
    for _ in range(3):
        edit(ctx, hg, hm)
        observe(ctx, hg, hm, 0.5, views)
    ctx.state(hm.fp())


def huge_model(rng, unit=False, top=700, low=1):
    """More than a thousand vertices, hundreds to thousands of hyperedges, some of hundreds of vertices, many groups."""
    hm = HM(rng.randint(1030, 1300))
    hm.names = GROUPS + rng.sample(MORE, 4)
    for name in rng.sample(hm.names, rng.choice([1, 2, 6])):
        d = hm.g.setdefault(name, {})
        for _ in range(rng.choice([60, 300, 1100])):
            k = rng.choice([1, 2, 2, 3, 3, 4, 6, 9]) if rng.random() < 0.98 else rng.choice([130, 300, 700])
            k = max(low, min(k, top))
            d[tuple(sorted(rng.sample(range(hm.n), k)))] = 1.0 if unit else float(pick_w(rng))
    return hm


def huge(ctx, views=VIEWS):
    import dhg

    rng = ctx.rng
    hm = huge_model(rng)
    hm.vw = rand_vw(rng, hm.n)
    hg = build(dhg, hm)
    observe(ctx, hg, hm, 0.4, views)
    for op in rng.sample(OPS, len(OPS)):      # hundreds of hyperedges at once, each one once or with repeats
        name = rng.choice(list(hm.g) + hm.names[:1])
        es = rand_es(rng, hm, rng.choice([100, 400])) + [list(e) for e in rng.sample(sorted(hm.g.get(name, {})), min(200, len(hm.g.get(name, {}))))]
        if (ctx.idx + OPS.index(op)) % 2:
            es = [list(e) for e in sorted({tuple(sorted(e)) for e in es})]
            rng.shuffle(es)
        ws = [pick_w(rng) for _ in es] if rng.random() < 0.7 else None
        hg.add_hyperedges(disguise(rng, es), ws, merge_op=op, group_name=name)
        hm.add(es, ws or [1.0] * len(es), op, name)
        observe(ctx, hg, hm, 0.1, views)
    es = rand_es(rng, hm, 100)
    hg.remove_hyperedges(disguise(rng, es))
    hm.remove(es)
    observe(ctx, hg, hm, 0.7, views)
    ctx.event("huge")
    ctx.state(hm.n, len(hm.all()))
