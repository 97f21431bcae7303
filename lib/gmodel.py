"""Reference models of the three graph kinds and the monitors of their read views."""
import copy
import re

import numpy as np

from .ref import close, diff, dn, inv, merge, pick_w, same_weighted


class GM:
    """kind: 'g' undirected, 'd' directed, 'b' bipartite."""

    def __init__(self, kind, n, m=None, extra=False):
        self.kind, self.n, self.m = kind, n, m     # bipartite: n = |U|, m = |V|
        self.w, self.loops, self.extra = {}, {}, extra

    def copy(self):
        return copy.deepcopy(self)

    def key(self, s, d):
        return (min(s, d), max(s, d)) if self.kind == "g" else (s, d)

    def add(self, edges, weights, op):
        for (s, d), w in zip(edges, weights):
            if self.kind != "b" and s == d:
                self.loops[s] = merge(op, self.loops[s], w) if s in self.loops else float(w)
            else:
                k = self.key(s, d)
                self.w[k] = merge(op, self.w[k], w) if k in self.w else float(w)

    def remove(self, edges):
        for s, d in edges:
            if self.kind != "b" and s == d:
                self.loops.pop(s, None)
            else:
                self.w.pop(self.key(s, d), None)

    def clear(self):
        self.w, self.loops, self.extra = {}, {}, False

    def edges(self):
        res = list(self.w.items()) + [((v, v), w) for v, w in self.loops.items()]
        if self.extra:
            res += [((v, v), 1.0) for v in range(self.n)]
        return res

    @property
    def num_e(self):
        return len(self.edges())

    def A(self):
        """Adjacency (g, d) or incidence B (b)."""
        A = np.zeros((self.n, self.m if self.kind == "b" else self.n))
        for (s, d), w in self.w.items():
            A[s, d] += w
            if self.kind == "g":
                A[d, s] += w
        for v, w in self.loops.items():
            A[v, v] += w
        if self.extra:
            A += np.eye(self.n)
        return A

    def P(self):
        """Where A() has an edge (of weight zero, too)."""
        P = np.zeros((self.n, self.m if self.kind == "b" else self.n), dtype=bool)
        for s, d in self.w:
            P[s, d] = True
            if self.kind == "g":
                P[d, s] = True
        for v in self.loops:
            P[v, v] = True
        if self.extra:
            P |= np.eye(self.n, dtype=bool)
        return P

    def fp(self):
        return (self.kind, self.n, self.m, self.extra, tuple(sorted((k, round(w, 3)) for k, w in self.w.items())),
                tuple(sorted((k, round(w, 3)) for k, w in self.loops.items())))


def new(dhg, m):
    if m.kind == "g":
        return dhg.Graph(m.n, extra_selfloop=m.extra)
    if m.kind == "d":
        return dhg.DiGraph(m.n, extra_selfloop=m.extra)
    return dhg.BiGraph(m.n, m.m)


def build(dhg, m):
    """A real graph holding exactly the model's state (one constructor call)."""
    es = [k for k in m.w] + [(v, v) for v in m.loops]
    ws = list(m.w.values()) + list(m.loops.values())
    e = [list(k) for k in es] if es else None
    w = ws if es else None
    if m.kind == "g":
        return dhg.Graph(m.n, e, w, extra_selfloop=m.extra)
    if m.kind == "d":
        return dhg.DiGraph(m.n, e, w, extra_selfloop=m.extra)
    return dhg.BiGraph(m.n, m.m, e, w)


def rand_model(rng, kind, n=None, m=None, dens=None, loops=True, extra=None, unit=False):
    if not n and not m and dens is None and rng.random() < 0.05:      # now and then a much larger one
        n, m, dens = rng.choice([13, 40, 70]), rng.choice([3, 20, 66]), rng.choice([0.03, 0.1])
    n = n or rng.randint(1, 9)
    m = (m or rng.randint(1, 9)) if kind == "b" else None
    gm = GM(kind, n, m)
    if kind != "b":
        gm.extra = rng.random() < 0.25 if extra is None else extra
    dens = rng.choice([0.0, 0.15, 0.4, 0.8, 1.0]) if dens is None else dens
    cells = [(i, j) for i in range(n) for j in range(m if kind == "b" else n)]
    for i, j in cells:
        if kind == "g" and i > j:
            continue
        if kind != "b" and i == j:
            if loops and rng.random() < 0.2:
                gm.loops[i] = 1.0 if unit else float(pick_w(rng))
            continue
        if rng.random() < dens:
            gm.w[(i, j)] = 1.0 if unit else float(pick_w(rng))
    return gm


def rand_edges(rng, gm, k):
    """k endpoint pairs, biased to repeat and to collide with existing edges."""
    out = []
    have = list(gm.w) + [(v, v) for v in gm.loops]
    for _ in range(k):
        r = rng.random()
        if r < 0.3 and have:
            e = rng.choice(have)
            if gm.kind != "b" and rng.random() < 0.5:
                e = (e[1], e[0])
        elif r < 0.45 and out:
            e = rng.choice(out)
            if gm.kind != "b" and rng.random() < 0.5:
                e = (e[1], e[0])
        elif gm.kind == "b":
            e = (rng.randrange(gm.n), rng.randrange(gm.m))
        else:
            s = rng.randrange(gm.n)
            e = (s, s) if rng.random() < 0.15 else (s, rng.randrange(gm.n))
        out.append(tuple(e))
    return out


def disguise(rng, edges):
    """The same edges in one of the accepted list shapes."""
    r = rng.random()
    if r < 0.4:
        return [list(e) for e in edges]
    if r < 0.8:
        return [tuple(e) for e in edges]
    return tuple(tuple(e) for e in edges)


# ---------------------------------------------------------------- monitors
def pairs(src, dst, w=None):
    s, d = src.cpu().tolist(), dst.cpu().tolist()
    return list(zip(s, d)) if w is None else list(zip(zip(s, d), w.cpu().tolist()))


def entries(A, P):
    return [((int(i), int(j)), float(A[i, j])) for i, j in zip(*np.nonzero(P))]


def lap(gm, what):
    """Reference Laplacians of an undirected graph."""
    A = gm.A()
    n = gm.n
    if what == "L_GCN":
        if not gm.extra:
            A = A + np.eye(n)
        s = inv(A.sum(1), -0.5)
        return s[:, None] * A * s[None, :]
    A = A - np.diag(np.diag(A))
    d = A.sum(1)
    if what == "L":
        return np.diag(d) - A
    if what == "L_sym":
        s = inv(d, -0.5)
        return np.eye(n) - s[:, None] * A * s[None, :]
    return np.eye(n) - inv(d, -1.0)[:, None] * A


def bi_gcn(gm):
    B = gm.A()
    N = gm.n + gm.m
    A = np.zeros((N, N))
    A[: gm.n, gm.n:] = B
    A[gm.n:, : gm.n] = B.T
    A += np.eye(N)
    s = inv(A.sum(1), -0.5)
    return s[:, None] * A * s[None, :]


def check_edges(ctx, g, gm, key="edge list"):
    e, w = g.e
    ks = [tuple(sorted(x)) if gm.kind == "g" else tuple(x) for x in e]
    ctx.ok(len(e) == len(w) and same_weighted(zip(ks, w), gm.edges()), key, got=list(zip(ks, w)), want=gm.edges())


def views(gm):
    common = ["e", "num_e", "counts", "triples"]
    if gm.kind == "g":
        return common + ["e_both_side", "A", "D_v", "D_v_neg_1", "D_v_neg_1_2", "deg_v", "nbr", "hop",
                         "L", "L_sym", "L_rw", "L_GCN"]
    if gm.kind == "d":
        return common + ["A", "A_T", "D_v_in", "D_v_out", "D_v_in_neg_1", "D_v_out_neg_1", "deg", "nbr"]
    return common + ["A", "B", "B_T", "D_u", "D_v", "D_u_neg_1", "D_v_neg_1", "deg", "nbr", "L_GCN"]


def check_view(ctx, g, gm, v):
    rng, A = ctx.rng, gm.A()

    def eq(name, got, want):
        good = close(got, want)
        if good or gm.n * (gm.m or gm.n) > 4000:
            ctx.ok(good, "view " + name, diff="" if good else diff(got, want))
        else:
            ctx.ok(good, "view " + name, diff=diff(got, want), got=dn(got).tolist(), want=np.asarray(want).tolist(), model=gm.fp())

    if v == "e":
        check_edges(ctx, g, gm)
    elif v == "num_e":
        ctx.ok(g.num_e == gm.num_e, "view num_e", got=g.num_e, want=gm.num_e)
        num = [int(x) for x in re.findall(r"\d+", repr(g))]
        ctx.ok(num == ([gm.n, gm.m] if gm.kind == "b" else [gm.n]) + [gm.num_e], "the representation tells the sizes", got=repr(g))
    elif v == "counts":
        if gm.kind == "b":
            ctx.ok(g.num_u == gm.n and g.num_v == gm.m and list(g.u) == list(range(gm.n))
                   and list(g.v) == list(range(gm.m)), "view vertex counts")
        else:
            ctx.ok(g.num_v == gm.n and list(g.v) == list(range(gm.n)), "view vertex counts")
    elif v == "triples":
        if gm.kind == "b":
            got = pairs(g.e_u, g.e_v, g.e_weight)
        else:
            got = pairs(g.e_src, g.e_dst, g.e_weight)
        ctx.ok(same_weighted(got, entries(A, gm.P())), "view edge tensors", got=got, want=entries(A, gm.P()))
    elif v == "e_both_side":
        e, w = g.e_both_side
        want = [(k, x) for k, x in gm.edges()] + [((d, s), x) for (s, d), x in gm.w.items()]
        ctx.ok(same_weighted(zip([tuple(x) for x in e], w), want), "view e_both_side", got=list(zip(e, w)), want=want)
    elif v == "A":
        if gm.kind == "b":
            full = np.zeros((gm.n + gm.m,) * 2)
            full[: gm.n, gm.n:] = A
            full[gm.n:, : gm.n] = A.T
            eq("A", g.A, full)
        else:
            eq("A", g.A, A)
    elif v == "B":
        eq("B", g.B, A)
    elif v == "A_T":
        eq("A_T", g.A_T, A.T)
    elif v == "B_T":
        eq("B_T", g.B_T, A.T)
    elif v in ("D_v", "D_u", "D_v_in", "D_v_out", "D_v_neg_1", "D_v_neg_1_2", "D_u_neg_1", "D_v_in_neg_1",
               "D_v_out_neg_1"):
        if gm.kind == "b":
            d = A.sum(1) if "_u" in v else A.sum(0)
        elif gm.kind == "d":
            d = A.sum(0) if "_in" in v else A.sum(1)
        else:
            d = A.sum(1)
        if v.endswith("neg_1"):
            d = inv(d, -1.0)
        elif v.endswith("neg_1_2"):
            d = inv(d, -0.5)
        eq(v, getattr(g, v), np.diag(d))
    elif v == "deg_v":
        eq("deg_v", g.deg_v, A.sum(1))
    elif v == "deg":
        if gm.kind == "d":
            eq("deg_v_in", g.deg_v_in, A.sum(0))
            eq("deg_v_out", g.deg_v_out, A.sum(1))
        else:
            eq("deg_u", g.deg_u, A.sum(1))
            eq("deg_v", g.deg_v, A.sum(0))
    elif v == "nbr":
        A = gm.P()
        i = rng.randrange(gm.n)
        if gm.kind == "g":
            got, want = [g.nbr_v(i), g.N_v(i).tolist()], [A[i], A[i]]
        elif gm.kind == "d":
            got = [g.nbr_v_out(i), g.N_v_out(i).tolist(), g.nbr_v_in(i), g.N_v_in(i).tolist()]
            want = [A[i], A[i], A[:, i], A[:, i]]
        else:
            j = rng.randrange(gm.m)
            got = [g.nbr_v(i), g.N_v(i).tolist(), g.nbr_u(j), g.N_u(j).tolist()]
            want = [A[i], A[i], A[:, j], A[:, j]]
        for a, b in zip(got, want):
            ctx.ok(sorted(a) == np.nonzero(b)[0].tolist(), "view neighbours", got=sorted(a),
                   want=np.nonzero(b)[0].tolist(), vertex=i)
    elif v == "hop":
        i, k = rng.randrange(gm.n), rng.choice([2, 2, 3, 3, 4, 4, 5, 7] if gm.n < 1000 else [2, 3])
        M = np.eye(gm.n)[i]
        for _ in range(k):
            M = (M @ gm.P() > 0).astype(float)
        ctx.ok(sorted(g.nbr_v(i, k)) == np.nonzero(M)[0].tolist(), "view k-hop neighbours", vertex=i, hop=k,
               got=sorted(g.nbr_v(i, k)), want=np.nonzero(M)[0].tolist())
    elif v in ("L", "L_sym", "L_rw", "L_GCN"):
        eq(v, getattr(g, v), bi_gcn(gm) if gm.kind == "b" else lap(gm, v))
    else:
        raise KeyError(v)
    ctx.event("view:" + v)


def observe(ctx, g, gm, share=1.0):
    vs = views(gm)
    ctx.rng.shuffle(vs)
    for v in vs:
        if share >= 1.0 or ctx.rng.random() < share:
            check_view(ctx, g, gm, v)


# ---------------------------------------------------------------- edit steps
OPS = ["mean", "sum", "max"]


def edit(ctx, g, gm):
    """One random edit applied to the real graph and to the model (same object)."""
    rng = ctx.rng
    r = rng.random()
    if rng.random() < 0.06:                       # carry on with a copy, or after a change of nothing
        how = rng.choice(["clone", "state_dict", "to", "drop0"])
        ctx.note("carry on with", how)
        if how == "clone":
            g = g.clone()
        elif how == "state_dict":
            g = type(g).from_state_dict(g.state_dict)
        elif how == "to":
            g = g.to(g.device)
        else:
            g = g.drop_edges(0.0)
    if r < 0.4:
        es = rand_edges(rng, gm, rng.choice([0, 1, 1, 2, 3, 6]))
        op = rng.choice(OPS)
        if len(es) == 1 and rng.random() < 0.6:
            arg = list(es[0]) if rng.random() < 0.7 else tuple(es[0])
            if rng.random() < 0.7:
                w = pick_w(rng)
                ctx.note("add1", arg, w, op)
                g.add_edges(arg, w, merge_op=op)
                gm.add(es, [w], op)
            else:
                ctx.note("add1", arg, None, op)
                g.add_edges(arg, merge_op=op)
                gm.add(es, [1.0], op)
        elif rng.random() < 0.7:
            ws = [pick_w(rng) for _ in es]
            ctx.note("add", es, ws, op)
            g.add_edges(disguise(rng, es), list(ws), merge_op=op)
            gm.add(es, ws, op)
        else:
            ctx.note("add", es, None, op)
            g.add_edges(disguise(rng, es), merge_op=op)
            gm.add(es, [1.0] * len(es), op)
        kind = "add"
    elif r < 0.62:
        es = rand_edges(rng, gm, rng.choice([0, 1, 1, 2, 4]))
        ctx.note("remove", es)
        if len(es) == 1 and rng.random() < 0.6:
            g.remove_edges(list(es[0]))
        else:
            g.remove_edges(disguise(rng, es))
        gm.remove(es)
        kind = "remove"
    elif r < 0.66:
        ctx.note("clear")
        g.clear()
        gm.clear()
        kind = "clear"
    elif gm.kind == "b":
        if rng.random() < 0.5:
            ctx.note("switch_uv")
            g = g.switch_uv()
            gm2 = GM("b", gm.m, gm.n)
            gm2.w = {(v, u): w for (u, v), w in gm.w.items()}
            return g, gm2, "switch_uv"
        return edit(ctx, g, gm)
    elif gm.kind == "d" and r < 0.8:
        ctx.note("reverse")
        g.reverse_direction()
        gm.w = {(d, s): w for (s, d), w in gm.w.items()}
        kind = "reverse"
    else:
        what = rng.choice(["add_extra_selfloop", "remove_extra_selfloop", "remove_selfloop"])
        ctx.note(what)
        getattr(g, what)()
        if what == "add_extra_selfloop":
            gm.extra = True
        else:
            gm.extra = False
            if what == "remove_selfloop":
                gm.loops = {}
        kind = what
    return g, gm, kind


def history(ctx, kind, steps, share=None):
    import dhg

    rng = ctx.rng
    gm = GM(kind, rng.choice([1, 2, 3, 4, 5, 7]), rng.choice([1, 2, 3, 4, 6]) if kind == "b" else None)
    if rng.random() < 0.5:
        if kind != "b":
            gm.extra = rng.random() < 0.3
        g = new(dhg, gm)
    elif rng.random() < 0.3:  # adjacency list: first entry of a line is the source
        lines = []
        for _ in range(rng.randint(1, 5)):
            s = rng.randrange(gm.n)
            ds = [rng.randrange(gm.m if kind == "b" else gm.n) for _ in range(rng.choice([0, 1, 2, 4]))]
            lines.append([s] + ds)
            gm.add([(s, d) for d in ds], [1.0] * len(ds), "mean")
        ctx.note("adj_list", lines)
        cls = {"g": dhg.Graph, "d": dhg.DiGraph, "b": dhg.BiGraph}[kind]
        kw = {}
        if kind != "b":
            gm.extra = kw["extra_selfloop"] = rng.random() < 0.3
        g = cls.from_adj_list(*((gm.n, gm.m) if kind == "b" else (gm.n,)), lines, **kw)
        ctx.event("from_adj_list")
    else:  # constructor with edges, repetitions included
        es = rand_edges(rng, gm, rng.randint(1, 8))
        ws = [pick_w(rng) for _ in es] if rng.random() < 0.7 else None
        op = rng.choice(OPS)
        kw = {}
        if kind != "b":
            gm.extra = kw["extra_selfloop"] = rng.random() < 0.3
        gm.add(es, ws or [1.0] * len(es), op)
        ctx.note("init", es, ws, op, kw)
        cls = {"g": dhg.Graph, "d": dhg.DiGraph, "b": dhg.BiGraph}[kind]
        args = (gm.n, gm.m) if kind == "b" else (gm.n,)
        g = cls(*args, disguise(rng, es), ws, merge_op=op, **kw)
    share = rng.choice([0.0, 0.15, 0.5, 1.0]) if share is None else share
    observe(ctx, g, gm, share)
    for _ in range(steps):
        g, gm, what = edit(ctx, g, gm)
        ctx.event("edit:" + what)
        ctx.state(gm.fp())
        observe(ctx, g, gm, share)
    observe(ctx, g, gm)
    if len(gm.w) >= 3:
        ctx.sample({"history": ctx.log[-12:], "final": gm.fp()})
    return g, gm


def big(ctx, kind):
    """A larger graph, one burst of edits, all views."""
    import dhg

    rng = ctx.rng
    gm = rand_model(rng, kind, n=rng.randint(25, 45), m=rng.randint(20, 40), dens=rng.choice([0.05, 0.3]))
    if ctx.idx % 3 == 0:      # indices beyond a byte, hundreds of edges
        gm = rand_model(rng, kind, n=rng.randint(257, 330), m=rng.randint(20, 300), dens=0.006)
    g = build(dhg, gm)
    observe(ctx, g, gm)
    for _ in range(3):
        g, gm, what = edit(ctx, g, gm)
        observe(ctx, g, gm, 0.6)
    ctx.state(gm.fp())


def huge_model(rng, kind):
    """Thousands of vertices and edges."""
    gm = GM(kind, rng.randint(1030, 1400), rng.choice([30, 700, 1200]) if kind == "b" else None)
    gm.extra = kind != "b" and rng.random() < 0.3
    k = rng.choice([2100, 4500, 9000])
    es = [(rng.randrange(gm.n), rng.randrange(gm.m or gm.n)) for _ in range(k)]
    hub = rng.randrange(gm.n)
    es += [(hub, j) for j in range(0, gm.m or gm.n, rng.choice([1, 2, 3]))]
    gm.add(es, [float(pick_w(rng)) for _ in es], "max")
    return gm


def huge(ctx, kind):
    import dhg

    rng = ctx.rng
    gm = huge_model(rng, kind)
    g = build(dhg, gm)
    observe(ctx, g, gm, 0.5)
    for op in rng.sample(OPS, len(OPS)):      # hundreds of edges at once, each one once or with repeats
        es = rand_edges(rng, gm, rng.choice([300, 1500]))
        es += rng.sample(sorted(gm.w), 300)
        if (ctx.idx + OPS.index(op)) % 2:
            es = sorted(set(es))
            rng.shuffle(es)
        ws = [pick_w(rng) for _ in es] if rng.random() < 0.7 else None
        g.add_edges(disguise(rng, es), ws, merge_op=op)
        gm.add(es, ws or [1.0] * len(es), op)
        check_edges(ctx, g, gm, "edge list after many additions")
    es = rand_edges(rng, gm, 300)
    g.remove_edges(disguise(rng, es))
    gm.remove(es)
    observe(ctx, g, gm)
    ctx.event("huge")
    ctx.state(gm.n, len(gm.w))
