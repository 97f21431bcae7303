"""Structures, layers, models, losses and metrics work on the device they are given (a second device is simulated)."""
import torch

from lib import fakedev as F
from lib import gmodel as G
from lib import hmodel as H
from lib import zoo
from lib.ref import dn

RULE = "one state per distinct (structure or module, way to the device, what was read before) combination"
ASSUMPTIONS = ["the second device is simulated: tensors carry a device label, every torch call is judged by the rules of a machine with a GPU, and the arithmetic runs on the CPU"]
REQUIRED_EVENTS = {"views compared": 100, "torch calls on the second device": 100}

SKIP = {"R_v2e", "R_e2v", "device"}


def plain(v):
    if isinstance(v, torch.Tensor):
        return dn(v.detach()).tolist()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(plain(x) for x in v)
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    return v


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) or isinstance(b, float):
        return a == b or abs(a - b) <= 1e-5 * (1 + abs(b)) or (a != a and b != b)
    return a == b


def views(s, kind):
    """Named readers of a structure."""
    R = {p: (lambda o, p=p: getattr(o, p)) for p in dir(type(s)) if not p.startswith("_") and p not in SKIP and isinstance(getattr(type(s), p), property)}
    if kind == "h":
        for p in dir(type(s)):
            if p.endswith("_of_group") and not p.startswith(("_", "R_", "drop_", "nbr_", "N_", "smoothing", "v2", "e2v")) or p.endswith(("src_of_group", "dst_of_group", "weight_of_group")):
                for g in s.group_names:
                    R[p + "@" + g] = lambda o, p=p, g=g: getattr(o, p)(g)
        for g in s.group_names:
            R["N_e@" + g] = lambda o, g=g: o.N_e_of_group(0, g)
            R["nbr_e@" + g] = lambda o, g=g: o.nbr_e_of_group(0, g)
            R["nbr_v@" + g] = lambda o, g=g: o.nbr_v_of_group(0, g)
        R["N_e"] = lambda o: o.N_e(0)
        R["nbr_e"] = lambda o: o.nbr_e(0)
        if s.num_e:
            R["N_v"] = lambda o: o.N_v(0)
            R["nbr_v"] = lambda o: o.nbr_v(0)
    elif kind == "g":
        for h in (1, 2, 3):
            R["N_v %d" % h] = lambda o, h=h: o.N_v(0, h)
            R["nbr_v %d" % h] = lambda o, h=h: o.nbr_v(0, h)
    else:
        for p in ("N_v", "N_u", "nbr_v", "nbr_u") if kind == "b" else ("N_v_in", "N_v_out", "nbr_v_in", "nbr_v_out"):
            R[p + "()"] = lambda o, p=p: getattr(o, p)(0)
    return R


def structure(ctx, kind, small=False):
    """(build(device or None), kind's model)"""
    import dhg

    rng = ctx.rng
    empty = rng.random() < 0.12
    if kind == "h":
        m = H.rand_model(rng, n=rng.randint(2, 6), vw=rng.random() < 0.5)
        if empty:
            m = H.HM(m.n)

        def make(dev=None):
            s = dhg.Hypergraph(m.n, v_weight=m.vw) if dev is None else dhg.Hypergraph(m.n, v_weight=m.vw, device=dev)
            for g in m.g:
                if m.g[g]:
                    s.add_hyperedges([list(e) for e in m.g[g]], list(m.g[g].values()), group_name=g)
            return s
        return make, m
    m = G.rand_model(rng, kind, n=rng.randint(2, 6))
    if empty:
        m.w, m.loops = {}, {}
    es = [list(k) for k in m.w] + [[v, v] for v in m.loops]
    ws = [float(x) for x in list(m.w.values()) + list(m.loops.values())]

    def make(dev=None):
        kw = {} if dev is None else {"device": dev}
        a = (es, ws) if es else ()
        if kind == "b":
            return dhg.BiGraph(m.n, m.m, *a, **kw)
        return (dhg.Graph if kind == "g" else dhg.DiGraph)(m.n, *a, extra_selfloop=m.extra, **kw)
    return make, m


def edit(rng, s, kind, m):
    """A random edit (the same on every copy: takes its own seed)."""
    n = m.n
    if kind == "h":
        e = sorted(rng.sample(range(n), rng.randint(1, n)))
        x = rng.random()
        if x < 0.6:
            return lambda o: o.add_hyperedges([e], [1.5], group_name="late")
        if x < 0.8 and s.num_e:
            return lambda o: o.remove_group("main") if "main" in o.group_names else None
        return lambda o: o.clear()
    x = rng.random()
    e = (rng.randrange(n), rng.randrange(m.m if kind == "b" else n))
    if x < 0.6:
        return lambda o: o.add_edges([e], [1.5])
    if x < 0.7 and kind != "b":
        return lambda o: o.add_extra_selfloop()
    if x < 0.8 and kind != "g":
        return lambda o: o.reverse_direction() if kind == "d" else o.switch_uv()
    return lambda o: o.clear()


def read(fn, s):
    try:
        return "value", fn(s)
    except F.Mixed as e:
        return "mixed", str(e)
    except Exception as e:  # judged by the comparison
        return "error", "%s: %s" % (type(e).__name__, e)


def on(v, dev):
    if isinstance(v, torch.Tensor):
        return F.label(v) == dev
    if isinstance(v, (list, tuple)):
        return all(on(x, dev) for x in v)
    return True


def sc_views(ctx):
    """Every view of a structure lies on the structure's device and tells what the CPU structure tells."""
    rng = ctx.rng
    kind = rng.choice("gdbh")
    make, m = structure(ctx, kind)
    way = rng.choice(["given", "cold", "warm", "half", "edited", "moved then edited", "back", "clone", "pieces"])
    if kind != "h" and way == "pieces":
        way = "half"
    twin = make()
    ed = edit(rng, twin, kind, m)
    dev = F.GPU
    with F.Fake() as f:
        s = make(F.GPU) if way == "given" else make()
        R = views(s, kind)
        names = list(R)
        pre = {"warm": 1.0, "half": 0.5, "edited": 0.7, "moved then edited": 0.5, "back": 0.7, "clone": 0.5, "pieces": 0.3}.get(way, 0)
        done = [x for x in names if rng.random() < pre]
        for x in done:
            read(R[x], s)
        if way == "edited":
            ed(s)
        r = s if way == "given" else s.to(rng.choice([F.GPU, "cuda:0"]) if way != "back" else F.GPU)
        ctx.ok(r is s, "to returns the structure itself", kind=kind)
        if way == "moved then edited":
            for x in done:
                read(R[x], s)
            ed(s)
        if way == "back":
            for x in names:
                if rng.random() < 0.5:
                    read(R[x], s)
            s.to(F.CPU)
            dev = F.CPU
        if way == "clone":
            s = s.clone()
        if way == "pieces":
            s = s.subgraph(list(range(m.n)))
        if "edited" in way:
            ed(twin)
        R = views(s, kind)
        names = list(R)
        rng.shuffle(names)
        got = {x: read(R[x], s) for x in names}
        ctx.ok(torch.device(s.device) == dev, "the structure names the device it was given", case=[kind, way, str(s.device)])
        on_gpu = f.ops
    ctx.event("torch calls on the second device", on_gpu)
    if way == "pieces":
        twin = twin.subgraph(list(range(m.n)))
    for x in names:
        want = read(views(twin, kind)[x], twin)
        g = got[x]
        ctx.ok(g[0] == want[0] and (g[0] != "value" or same(plain(g[1]), plain(want[1]))), "a view of a structure on another device tells what the CPU structure tells",
               case=[kind, way, x, g[0], str(g[1])[:200] if g[0] != "value" else ""])
        if g[0] == "value" and not x.startswith(("N_", "nbr_")):
            ctx.ok(on(g[1], dev), "a view lies on the structure's device", case=[kind, way, x, str(dev), [str(F.label(t)) for t in ([g[1]] if isinstance(g[1], torch.Tensor) else [])]])
        ctx.event("views compared")
    ctx.state("views", kind, way, len(done), m.n, twin.num_e)


def feats(rng, n, c=3):
    return torch.tensor([[rng.uniform(-1, 1) for _ in range(c)] for _ in range(n)])


def passing(rng, s, kind, m):
    """Message-passing operations: name -> (inputs, function(structure, *inputs))."""
    ops = {}
    aggrs = ("mean", "sum", "softmax_then_sum")
    wts = lambda v: torch.tensor([rng.uniform(0.1, 2) for _ in range(len(v))])
    if kind in "gd":
        X = feats(rng, m.n)
        for a in aggrs:
            for kw in ({},) if kind == "g" else ({"direction": "src2dst"}, {"direction": "dst2src"}):
                ops["v2v %s %s" % (a, kw)] = ([X], lambda o, x, a=a, kw=kw: o.v2v(x, aggr=a, **kw))
                if s.num_e:
                    ops["v2v %s %s weights" % (a, kw)] = ([X, wts(s.e_weight)], lambda o, x, w, a=a, kw=kw: o.v2v(x, aggr=a, e_weight=w, **kw))
        if kind == "g":
            ops["GCN"] = ([X], lambda o, x: o.smoothing_with_GCN(x))
            ops["smoothing"] = ([X], lambda o, x: o.to(x.device).smoothing(x, o.L, 0.3))
    elif kind == "b":
        XU, XV = feats(rng, m.n), feats(rng, m.m)
        for a in aggrs:
            ops["u2v " + a] = ([XU], lambda o, x, a=a: o.u2v(x, aggr=a))
            ops["v2u " + a] = ([XV], lambda o, x, a=a: o.v2u(x, aggr=a))
            if s.num_e:
                ops["u2v %s weights" % a] = ([XU, wts(s.e_weight)], lambda o, x, w, a=a: o.u2v(x, aggr=a, e_weight=w))
                ops["v2u %s weights" % a] = ([XV, wts(s.e_weight)], lambda o, x, w, a=a: o.v2u(x, aggr=a, e_weight=w))
        ops["GCN"] = ([feats(rng, m.n + m.m)], lambda o, x: o.smoothing_with_GCN(x))
    else:
        X = feats(rng, m.n)
        ops["HGNN"] = ([X], lambda o, x: o.smoothing_with_HGNN(x))
        for g in [None] + list(s.group_names):
            f = "" if g is None else "_of_group"
            ne = s.num_e if g is None else s.num_e_of_group(g)
            pre = () if g is None else (g,)
            if not ne:
                continue
            XE, we = feats(rng, ne), torch.tensor([rng.uniform(0.1, 2) for _ in range(ne)])
            w1, w2 = (wts(s.v2e_weight), wts(s.e2v_weight)) if g is None else (wts(s.v2e_weight_of_group(g)), wts(s.e2v_weight_of_group(g)))
            if g is not None:
                ops["HGNN@" + g] = ([X], lambda o, x, g=g: o.smoothing_with_HGNN_of_group(g, x))
            for a in aggrs:
                ops["v2v%s %s" % (f, a)] = ([X], lambda o, x, a=a, f=f, pre=pre: getattr(o, "v2v" + f)(*pre, x, aggr=a))
                ops["v2v%s %s weights" % (f, a)] = ([X, w1, we, w2], lambda o, x, p, q, r, a=a, f=f, pre=pre: getattr(o, "v2v" + f)(*pre, x, aggr=a, v2e_weight=p, e_weight=q, e2v_weight=r))
                ops["v2e%s %s" % (f, a)] = ([X], lambda o, x, a=a, f=f, pre=pre: getattr(o, "v2e" + f)(*pre, x, aggr=a))
                ops["e2v%s %s" % (f, a)] = ([XE], lambda o, x, a=a, f=f, pre=pre: getattr(o, "e2v" + f)(*pre, x, aggr=a))
                ops["v2e_aggregation%s %s" % (f, a)] = ([X, w1], lambda o, x, w, a=a, f=f, pre=pre: getattr(o, "v2e_aggregation" + f)(*pre, x, aggr=a, v2e_weight=w))
                ops["e2v_aggregation%s %s" % (f, a)] = ([XE, w2], lambda o, x, w, a=a, f=f, pre=pre: getattr(o, "e2v_aggregation" + f)(*pre, x, aggr=a, e2v_weight=w))
            ops["v2e_update" + f] = ([XE], lambda o, x, f=f, pre=pre: getattr(o, "v2e_update" + f)(*pre, x))
            ops["v2e_update%s weights" % f] = ([XE, we], lambda o, x, w, f=f, pre=pre: getattr(o, "v2e_update" + f)(*pre, x, w))
            ops["e2v_update" + f] = ([X], lambda o, x, f=f, pre=pre: getattr(o, "e2v_update" + f)(*pre, x))
    return ops


def sc_passing(ctx):
    """Messages are passed whatever devices structure and features are on; the result and the gradients are the CPU ones."""
    rng = ctx.rng
    kind = rng.choice("gdbhh")
    make, m = structure(ctx, kind)
    twin = make()
    ops = passing(rng, twin, kind, m)
    names = list(ops)
    rng.shuffle(names)
    dropping = rng.random() < 0.2
    with F.Fake() as f:
        s = make()
        here = F.CPU
        for x in names:
            ins, fn = ops[x]
            where = rng.choice([F.GPU, F.GPU, F.CPU])
            if rng.random() < 0.4:
                here = rng.choice([F.GPU, F.CPU])
                s.to(here)
            cpu = [t.clone().requires_grad_() for t in ins]
            out = None
            leaves = [F.put(t.clone(), where).requires_grad_() for t in ins]
            for t in leaves:
                F.put(t, where)
            r = read(lambda o: fn(o, *leaves), s)
            before, here = here, torch.device(s.device)
            with F.Off():
                w = read(lambda o: fn(o, *cpu), twin)
            ctx.ok(r[0] == w[0] and (r[0] != "value" or same(plain(r[1]), plain(w[1]))), "messages passed on another device are the ones passed on the CPU",
                   case=[kind, x, "structure on %s, features on %s" % (before, where), str(r[1])[:200] if r[0] != "value" else ""])
            if r[0] != "value" or w[0] != "value":
                continue
            out = r[1]
            ctx.ok(F.label(out) == where, "the result lies where the features lie", case=[kind, x, str(before), str(where), str(F.label(out))])
            ctx.event("messages compared")
            if w[1].requires_grad:
                k = torch.tensor([[rng.uniform(-1, 1) for _ in range(w[1].shape[1])] for _ in range(w[1].shape[0])])
                with F.Off():
                    gw = torch.autograd.grad((w[1] * k).sum(), cpu, allow_unused=True)
                    gr = torch.autograd.grad((out * k).sum(), leaves, allow_unused=True)
                ctx.ok(same(plain([0 if t is None else t for t in gr]), plain([0 if t is None else t for t in gw])), "gradients through another device are the CPU ones", case=[kind, x])
        ctx.event("torch calls on the second device", f.ops)
    ctx.state("passing", kind, m.n, twin.num_e, len(names))


def sc_derived(ctx):
    """Structures made from structures stay on the device, and constructors put theirs where they are told."""
    import dhg

    rng = ctx.rng
    gm, dm, bm = G.rand_model(rng, "g", n=rng.randint(2, 6)), G.rand_model(rng, "d", n=rng.randint(2, 6)), G.rand_model(rng, "b", n=rng.randint(2, 5), m=rng.randint(2, 6))
    hm = H.rand_model(rng, n=rng.randint(2, 6), min_size=2)
    X = feats(rng, 6)
    adj = [[u] + sorted(rng.sample(range(6), 2)) for u in range(3)]
    k = rng.randint(1, 3)
    seed = rng.randrange(2**31)
    keep = sorted(rng.sample(range(hm.n), rng.randint(1, hm.n)))
    miu = rng.choice([1.0, 0.3])

    def world(dev, there):
        """(kind, expected device or None for the argument's default, maker)"""
        src = [G.build(dhg, gm), G.build(dhg, dm), G.build(dhg, bm), H.build(dhg, hm)]
        for s in src:
            if there:
                s.to(dev)
        g, d, b, h = src
        x = X.clone() if dev == F.CPU else F.put(X.clone(), dev)
        kw = {"device": dev}
        C = {}
        for n, o in (("g", g), ("d", d), ("b", b)):
            C["clone " + n] = (n, lambda o=o: o.clone())
            for r in (0.0, 1.0, 0.5):
                C["drop %s %s" % (n, r)] = (n, lambda o=o, r=r: o.drop_edges(r))
        C["clone h"] = ("h", lambda: h.clone())
        C["sub h"] = ("h", lambda: h.subgraph(keep))
        for r in (0.0, 1.0, 0.5):
            C["drop h %s" % r] = ("h", lambda r=r: h.drop_hyperedges(r))
            C["drop group %s" % r] = ("h", lambda r=r: h.drop_hyperedges_of_group(list(hm.g)[0], r))
        M = {"Graph adj": ("g", lambda: dhg.Graph.from_adj_list(6, adj, **kw)), "DiGraph adj": ("d", lambda: dhg.DiGraph.from_adj_list(6, adj, **kw)),
             "BiGraph adj": ("b", lambda: dhg.BiGraph.from_adj_list(3, 6, adj, **kw)), "BiGraph of h": ("b", lambda: dhg.BiGraph.from_hypergraph(h, **kw)),
             "DiGraph kNN": ("d", lambda: dhg.DiGraph.from_feature_kNN(x, k, **kw)), "Hypergraph kNN": ("h", lambda: dhg.Hypergraph.from_feature_kNN(x, k, **kw)),
             "Hypergraph of g": ("h", lambda: dhg.Hypergraph.from_graph(g, **kw)), "Hypergraph of g hops": ("h", lambda: dhg.Hypergraph.from_graph_kHop(g, k, **kw)),
             "Hypergraph of b": ("h", lambda: dhg.Hypergraph.from_bigraph(b, U_as_vertex=bool(k % 2), **kw)),
             "clique": ("g", lambda: dhg.Graph.from_hypergraph_clique(h, weighted=bool(k % 2), miu=miu, **kw)),
             "hypergcn": ("g", lambda: dhg.Graph.from_hypergraph_hypergcn(h, x[:1].repeat(hm.n, 1) * torch.arange(1.0, hm.n + 1).to(dev).view(-1, 1), bool(k % 2), **kw)),
             "star": ("g", lambda: dhg.Graph.from_hypergraph_star(h, weighted=bool(k % 2), **kw))}
        return C, M, src

    there = rng.random() < 0.6
    C0, M0, _s = world(F.CPU, True)
    with F.Fake() as f:
        C, M, src = world(F.GPU, there)
        for table, ref, dev in ((C, C0, F.GPU if there else F.CPU), (M, M0, F.GPU)):
            for x in rng.sample(list(table), 8):
                torch.manual_seed(seed)
                kind, fn = table[x]
                r = read(lambda _o: fn(), None)
                with F.Off():
                    torch.manual_seed(seed)
                    w = read(lambda _o: ref[x][1](), None)
                    if w[0] == "value" and isinstance(w[1], tuple):
                        w = ("value", w[1][0])
                if not ctx.ok(r[0] == w[0], "a structure is made on another device as on the CPU", case=[x, there, str(r[1])[:200] if r[0] != "value" else ""]) or r[0] != "value":
                    continue
                o = r[1]
                if isinstance(o, tuple):
                    ctx.ok(F.label(o[1]) == dev, "the vertex mask lies on the structure's device", case=[x])
                    o = o[0]
                if not ctx.ok(torch.device(o.device) == dev, "a made structure is on the device it was made for", case=[x, there, str(o.device)]):
                    continue
                exact = "0.5" not in x
                R = views(o, kind)
                for v in rng.sample(list(R), min(len(R), 7)):
                    got = read(R[v], o)
                    with F.Off():
                        want = read(views(w[1], kind)[v], w[1]) if exact else got
                    ctx.ok(got[0] == want[0] and got[0] != "mixed" and (got[0] != "value" or same(plain(got[1]), plain(want[1]))), "a view of a structure made on another device tells what the CPU structure tells",
                           case=[x, v, there, got[0], str(got[1])[:200] if got[0] != "value" else ""])
                    if got[0] == "value" and not v.startswith(("N_", "nbr_")):
                        ctx.ok(on(got[1], dev), "a view of a made structure lies on its device", case=[x, v, there])
                    ctx.event("views compared")
                for name, s in zip("gdbh", src):
                    ctx.ok(torch.device(s.device) == (F.GPU if there else F.CPU), "a source structure stays where it was", case=[x, name])
        ctx.event("torch calls on the second device", f.ops)
    ctx.state("derived", there, k, hm.num_e if hasattr(hm, "num_e") else 0, len(gm.edges()), seed)


_ZOO = []


def sc_nets(ctx):
    """Layers and models moved to a device compute, learn and answer there as on the CPU."""
    import copy

    import dhg

    rng = ctx.rng
    if not _ZOO:
        _ZOO.extend(zoo.zoo())
    e = _ZOO[ctx.idx % len(_ZOO)] if rng.random() < 0.8 else rng.choice(_ZOO)
    a, b = rng.randint(1, 4), rng.randint(2, 4)
    w = zoo.rand_world(rng, e.kind, 6, a, b)
    seed = rng.randrange(2**31)
    torch.manual_seed(seed)
    net = zoo.settle(e.make(rng, a, b, w))
    twin = copy.deepcopy(net)
    train = rng.random() < 0.5
    st, xt = zoo.build(dhg, w), [x.clone() for x in w["x"]]
    steps = rng.randint(1, 2)
    opt = rng.choice(["SGD", "Adam"])

    def go(n, s, x):
        out = []
        n.train(train)
        o = getattr(torch.optim, opt)(n.parameters(), lr=0.05) if train else None
        for i in range(steps):
            torch.manual_seed(seed + i)
            ys = e.call(n, s, x)
            out.append(ys)
            if train:
                o.zero_grad()
                sum(y.square().sum() for y in ys).backward()
                o.step()
        return out

    want = go(twin, st, xt)
    with F.Fake() as f:
        s = zoo.build(dhg, w)
        before = rng.random() < 0.5
        for t in s:
            if before:
                t.to(F.GPU)
        if rng.random() < 0.3:               # used on the CPU first, then moved
            net.eval()
            with torch.no_grad():
                r = read(lambda _o: e.call(net, [q.clone().to(F.CPU) for q in s], [x.clone() for x in w["x"]]), None)
        m = net.to(F.GPU)
        ctx.ok(m is net and all(F.label(p) == F.GPU for p in net.parameters()), "parameters move", model=e.name)
        r = read(lambda _o: go(net, s, [F.put(x.clone(), F.GPU) for x in w["x"]]), None)
        if ctx.ok(r[0] == "value", "a model moved to another device works there", case=[e.name, train, before, str(r[1])[:240] if r[0] != "value" else ""]):
            for i, (p, q) in enumerate(zip(r[1], want)):
                ctx.ok(on(p, F.GPU), "a model's answer lies on its device", case=[e.name, train, before])
                ctx.ok(len(p) == len(q) and all(same(plain(y), plain(z)) or e.tie for y, z in zip(p, q)), "a model's answer on another device is the CPU answer", case=[e.name, train, before, i])
                ctx.event("answers compared")
        ctx.event("torch calls on the second device", f.ops)
    ctx.event("model " + e.name)
    ctx.state("net", e.name, train, before, steps, tuple(w["n"]), len(w["e"][0]))


def sc_cascade(ctx):
    """The cascaded training of BGNN runs on the device it is told."""
    import copy

    import dhg
    from dhg import models as m

    rng = ctx.rng
    a, b = rng.randint(1, 4), rng.randint(2, 4)
    w = zoo.rand_world(rng, "b", 6, a, b)
    adv = rng.random() < 0.5
    seed = rng.randrange(2**31)
    torch.manual_seed(seed)
    net = m.BGNN_Adv(a, b, rng.choice([2, 3])) if adv else m.BGNN_MLP(a, b, 3, 4, layer_depth=rng.choice([2, 3]), drop_rate=0.0)
    twin = copy.deepcopy(net)
    ep = rng.randint(1, 2)
    kw = {"drop_rate": 0.0} if adv else {}
    torch.manual_seed(seed + 1)
    want = twin.train_with_cascaded(w["x"][0].clone(), w["x"][1].clone(), zoo.build(dhg, w)[0], 0.01, 0.0, ep, **kw)
    with F.Fake() as f:
        g = zoo.build(dhg, w)[0]
        if rng.random() < 0.5:
            g.to(F.GPU)
        xs = [F.put(x.clone(), F.GPU) if rng.random() < 0.5 else x.clone() for x in w["x"]]
        torch.manual_seed(seed + 1)
        r = read(lambda _o: net.train_with_cascaded(xs[0], xs[1], g, 0.01, 0.0, ep, device=rng.choice([F.GPU, "cuda"]), **kw), None)
        if ctx.ok(r[0] == "value", "cascaded training works on another device", case=[adv, str(r[1])[:240] if r[0] != "value" else ""]):
            ctx.ok(F.label(r[1]) == F.GPU and same(plain(r[1]), plain(want)), "cascaded training gives the CPU result on the device", case=[adv])
            ctx.event("answers compared")
        ctx.event("torch calls on the second device", f.ops)
    ctx.state("cascade", adv, ep, tuple(w["n"]))


def sc_functions(ctx):
    """Losses, normalisers, sparse dropout, metrics and evaluators accept tensors of a device."""
    from dhg import datapipe as D
    from dhg import metrics as M
    from dhg import nn, utils
    from dhg.metrics import classification as MC
    from dhg.metrics import recommender as MR
    from dhg.metrics import retrieval as MT

    rng = ctx.rng
    n, c = rng.randint(2, 6), rng.randint(2, 6)
    X, Y = feats(rng, n, c), feats(rng, n, c)
    y = torch.tensor([rng.randrange(c) for _ in range(n)])
    sc = torch.tensor([[x / 7 for x in rng.sample(range(-50, 50), c)] for _ in range(n)])
    rel = torch.tensor([[float(rng.random() < 0.4) for _ in range(c)] for _ in range(n)])
    for i in range(n):
        rel[i, rng.randrange(c)] = 1.0
    k = rng.randint(1, c)
    sp = (X * (X.abs() > 0.3)).to_sparse()
    lo, hi = sorted((rng.uniform(-2, 0), rng.uniform(0.1, 2)))
    cut = rng.choice([{}, {"k": k}, {"ratio": 0.5}])
    T = {"norm_ft": ([X], lambda x: D.norm_ft(x)), "norm_ft 1": ([X], lambda x: D.norm_ft(x, ord=1)), "norm_ft row": ([X[0]], lambda x: D.norm_ft(x)),
         "min_max": ([X], lambda x: D.min_max_scaler(x, lo, hi)), "compose": ([X], lambda x: D.compose_pipes(D.norm_ft, lambda q: D.min_max_scaler(q, 0.0, 1.0))(x)),
         "bpr": ([X[:, 0], Y[:, 0]], lambda p, q: nn.BPRLoss()(p, q)), "bpr softplus": ([X[:, 0], Y[:, 0]], lambda p, q: nn.BPRLoss(0.5, 2.0, "softplus")(p, q)),
         "reg": ([X, Y], lambda p, q: nn.EmbeddingRegularization(rng.choice([2]), 0.1)(p, q)),
         "dropout 0": ([sp], lambda x: utils.sparse_dropout(x, 0.0)), "dropout 1": ([sp], lambda x: utils.sparse_dropout(x, 1.0)),
         "dropout fill": ([sp], lambda x: utils.sparse_dropout(x, 1.0, 0.7)),
         "mlp": ([X], lambda x, m=nn.MLP([c, 3, 2], use_bn=True).eval(): m.to(x.device)(x)),
         "discriminator": ([X], lambda x, m=nn.Discriminator(c, 3, 1).eval(): m.to(x.device)(x)) if hasattr(nn, "Discriminator") else ([X], lambda x: x)}
    T["accuracy"] = ([y, sc], MC.accuracy)
    T["accuracy labels"] = ([y, y.flip(0)], MC.accuracy)
    for av in ("macro", "micro", "weighted"):
        T["f1 " + av] = ([y, sc], lambda p, q, av=av: MC.f1_score(p, q, av))
    T["confusion"] = ([y, sc], lambda p, q: MC.confusion_matrix(p, q).tolist())
    for lib, nm in ((MR, "rec"), (MT, "ret")):
        for fn in ("precision", "recall", "ndcg") + (("mrr",) if lib is MT else ()):
            T["%s %s" % (nm, fn)] = ([rel, sc], lambda p, q, g=getattr(lib, fn): g(p, q, **cut))
            T["%s %s batch" % (nm, fn)] = ([rel, sc], lambda p, q, g=getattr(lib, fn): g(p, q, ret_batch=True, **cut))
    for me in ("pascal_voc", "legacy"):
        T["ap " + me] = ([rel[0], sc[0]], lambda p, q, me=me: MT.ap(p, q, method=me))
        T["map " + me] = ([rel, sc], lambda p, q, me=me: MT.map(p, q, method=me))
        T["pr " + me] = ([rel, sc], lambda p, q, me=me: MT.pr_curve(p, q, method=me))
    T["rr"] = ([rel[0], sc[0]], lambda p, q: MT.rr(p, q))
    gains = rel * torch.tensor([[float(rng.randint(1, 5)) for _ in range(c)] for _ in range(n)])
    T["gains"] = ([gains, sc], lambda p, q: MT.ndcg(p, q, **cut))

    def evaluator(cls, cfg):
        def fn(p, q):
            ev = cls(cfg, 0)
            ev.validate_add_batch(p, q)
            ev.validate_add_batch(p, q)
            v = ev.validate_epoch_res()
            ev.test_add_batch(p, q)
            return [v, ev.test_epoch_res()]
        return fn
    T["eval rec"] = ([rel, sc], evaluator(M.UserItemRecommenderEvaluator, [{"ndcg": {"k": k}}, "recall", {"precision": {"k": 1}}]))
    T["eval ret"] = ([rel, sc], evaluator(M.RetrievalEvaluator, ["map", {"recall": {"k": k}}, "mrr", "pr_curve", "ndcg"]))

    def one_go(p, q):
        ev = M.VertexClassificationEvaluator(["accuracy", {"f1_score": {"average": "macro"}}, "confusion_matrix"], 0)
        r = [ev.validate(p, q), ev.test(p, q)]
        return [[float(r[0])], {a: (b.tolist() if hasattr(b, "tolist") else b) for a, b in r[1].items()}]
    T["eval class"] = ([y, sc], one_go)
    with F.Fake() as f:
        for x in rng.sample(list(T), min(len(T), 22)):
            ins, fn = T[x]
            with F.Off():
                w = read(lambda _o: fn(*[t.clone() for t in ins]), None)
            r = read(lambda _o: fn(*[F.put(t.clone(), F.GPU) for t in ins]), None)
            ctx.ok(r[0] == w[0] and (r[0] != "value" or same(plain(r[1]), plain(w[1]))), "a function gives for tensors of another device what it gives on the CPU",
                   case=[x, r[0], str(r[1])[:200], str(w[1])[:200]])
            if r[0] == "value" and isinstance(r[1], torch.Tensor) and not x.startswith(("rec", "ret")):
                ctx.ok(F.label(r[1]) == F.GPU, "a transformed tensor stays on its device", case=[x])
            ctx.event("functions compared")
        ctx.event("torch calls on the second device", f.ops)
    ctx.state("functions", n, c, k, str(cut))


def sc_tasks(ctx):
    """An experiment on a device gives the scores of the same experiment on the CPU, its best model and structure on the device."""
    import dhg
    from dhg import experiments as E
    from dhg import metrics as M
    from dhg import models as m
    from dhg.nn import BPRLoss
    from dhg.utils import UserItemDataset
    from torch.utils.data import DataLoader

    from checks.P33 import drop_handlers, quiet

    rng = ctx.rng
    seed = rng.randrange(2**31)
    epochs, trials = rng.randint(1, 3), rng.choice([1, 2])
    rec = rng.random() < 0.45
    builder = rng.random() < 0.5
    plain_mf = rec and not builder and rng.random() < 0.3
    kind = rng.choice("gh")
    if rec:
        nu, ni = rng.randint(3, 5), rng.randint(5, 7)
        per = {u: rng.sample(range(ni), rng.randint(2, 4)) for u in range(nu)}
        tr = [(u, i) for u in per for i in per[u][:-1]]
        te = [(u, per[u][-1]) for u in per]
        bs = rng.choice([1, 2, 100])
    else:
        c, k = rng.randint(2, 4), rng.randint(2, 3)
        w = zoo.rand_world(rng, kind, 9, c, k)
        while w["n"][0] < 6:
            w = zoo.rand_world(rng, kind, 9, c, k)
        n = w["n"][0]
        y = torch.tensor([i % k for i in range(n)])
        part = [i % 3 for i in range(n)]
        cls = rng.choice([m.GCN, m.GraphSAGE] if kind == "g" else [m.HGNN, m.HGNNP, m.UniGCN, m.HNHN, m.UniSAGE])
        tcls = rng.choice([E.VertexClassificationTask, E.GraphVertexClassificationTask if kind == "g" else E.HypergraphVertexClassificationTask])
        idx = rng.random() < 0.3

    class MF(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.u, self.i = torch.nn.Embedding(nu, 3), torch.nn.Embedding(ni, 3)

        def forward(self):
            return self.u.weight, self.i.weight

    def run(dev, root):
        dhg.random.set_seed(seed % 2**31)
        if rec:
            data = dict(train_loader=DataLoader(UserItemDataset(nu, ni, tr, phase="train"), batch_size=bs, shuffle=True),
                        test_loader=DataLoader(UserItemDataset(nu, ni, te, tr, phase="test"), batch_size=bs))
            struct = lambda: dhg.BiGraph(nu, ni, tr)
            model = lambda t: MF() if plain_mf else m.LightGCN(nu, ni, 3, num_layers=2)
            bpr = BPRLoss()

            def crit(eu, ei, users, pos, neg, model=None):
                return bpr((eu[users] * ei[pos]).sum(1), (eu[users] * ei[neg]).sum(1))
            ev = M.UserItemRecommenderEvaluator([{"ndcg": {"k": 2}}, {"recall": {"k": 2}}], 0)
            task_cls = E.UserItemRecommenderTask
        else:
            mk = [torch.tensor([p == q for p in part]) for q in range(3)]
            if idx:
                mk = [t.nonzero().view(-1) for t in mk]
            data = dict(features=w["x"][0].clone(), labels=y.clone(), train_mask=mk[0], val_mask=mk[1], test_mask=mk[2])
            struct = lambda: zoo.build(dhg, w)[0]
            model = lambda t: cls(c, 4, k, use_bn=True, drop_rate=0.0)
            crit = torch.nn.CrossEntropyLoss()
            ev = M.VertexClassificationEvaluator(["accuracy", {"f1_score": {"average": "macro"}}], 0)
            task_cls = tcls
        if not builder and not plain_mf:
            data["structure"] = struct()
        before = quiet()
        try:
            t = task_cls(root, data, model, lambda t, q: {"optimizer": torch.optim.Adam(q.parameters(), lr=0.05), "criterion": crit}, ev, dev,
                         structure_builder=(lambda t: struct()) if builder else None, study_name="s")
            t.run(epochs, trials)
            again = t.test()
            given = None
            if not rec and not builder:
                given = t.test(dict(data, structure=struct()), t.best_model)
        finally:
            drop_handlers(before)
        return t, [t.study.best_trial.value, [list(q.intermediate_values.values()) for q in t.study.trials], again, given]

    _t, want = run(F.CPU, ctx.tmp() / "cpu")
    with F.Fake() as f:
        r = read(lambda _o: run(F.GPU, ctx.tmp() / "gpu"), None)
        if ctx.ok(r[0] == "value", "an experiment runs on another device", case=["recommender" if rec else cls.__name__, builder, plain_mf, str(r[1])[:300] if r[0] != "value" else ""]):
            t, got = r[1]
            ctx.ok(same(plain(got), plain(want)), "an experiment on another device gives the CPU scores", got=got, want=want)
            ctx.ok(all(F.label(p) == F.GPU for p in t.best_model.parameters()), "the best model is on the experiment's device")
            ctx.ok(t.best_structure is None or torch.device(t.best_structure.device) == F.GPU, "the best structure is on the experiment's device")
            ctx.event("experiments compared")
        ctx.event("torch calls on the second device", f.ops)
    ctx.state("task", rec, kind, builder, plain_mf, epochs, trials, seed)


SCENARIOS = [("views", sc_views, 60, 1200), ("passing", sc_passing, 40, 800), ("derived", sc_derived, 30, 600), ("nets", sc_nets, 56, 900), ("cascade", sc_cascade, 6, 120),
             ("functions", sc_functions, 12, 240), ("tasks", sc_tasks, 14, 200)]
