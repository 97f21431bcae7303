"""Readers in several threads, in worker processes and on pickled copies see what a single reader sees."""
import copy
import pickle
import sys
import threading
import time

import torch

from lib import catalog
from lib import gmodel as G
from lib import hmodel as H
from lib import zoo
from lib.ref import close, dn, same_weighted

RULE = "one state per distinct thread interleaving of library lines (sequence of thread switches) or copied structure"


def plain(v):
    """Comparable value of a view."""
    if isinstance(v, torch.Tensor):
        return dn(v).tolist()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def equal(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, float) or isinstance(b, float):
        return a == b or abs(a - b) <= 1e-4 * (1 + abs(b)) or (a != a and b != b)
    return a == b


def reads(kind, n, m, X, XU, groups):
    """Named read-only operations."""
    R = {}
    attr = lambda *names: R.update({a: (lambda o, a=a: getattr(o, a)) for a in names})
    if kind == "h":
        attr("e", "num_e", "deg_v", "deg_e", "H", "H_T", "W_e", "W_v", "D_v", "D_v_neg_1", "D_v_neg_1_2", "D_e", "D_e_neg_1", "L_HGNN", "L_sym", "L_rw",
             "v2e_src", "v2e_dst", "v2e_weight", "e2v_src", "e2v_dst", "e2v_weight", "group_names", "v_weight")
        for g in groups:
            for a in ("e", "num_e", "deg_v", "deg_e", "H", "H_T", "W_e", "D_v", "D_v_neg_1", "D_v_neg_1_2", "D_e", "D_e_neg_1", "L_HGNN", "L_sym", "L_rw", "v2e_src", "e2v_weight"):
                R[a + "@" + g] = lambda o, a=a, g=g: getattr(o, a + "_of_group")(g)
            R["v2v@" + g] = lambda o, g=g: o.v2v_of_group(g, X, aggr="mean")
        for ag in ("sum", "mean", "softmax_then_sum"):
            R["v2v " + ag] = lambda o, ag=ag: o.v2v(X, aggr=ag)
            R["v2e " + ag] = lambda o, ag=ag: o.v2e(X, aggr=ag)
        R["HGNN"] = lambda o: o.smoothing_with_HGNN(X)
        R["N_e"] = lambda o: o.N_e(0)
        return R
    attr("e", "num_e", "A", "e_src", "e_dst", "e_weight") if kind != "b" else attr("e", "num_e", "A", "B", "B_T", "D_u", "D_v", "D_u_neg_1", "D_v_neg_1", "deg_u", "deg_v", "L_GCN",
                                                                                   "e_u", "e_v", "e_weight")
    if kind == "g":
        attr("e_both_side", "D_v", "D_v_neg_1", "D_v_neg_1_2", "deg_v", "L", "L_sym", "L_rw", "L_GCN")
        R["hop"] = lambda o: sorted(o.nbr_v(0, 2))
        R["GCN"] = lambda o: o.smoothing_with_GCN(X)
    if kind == "d":
        attr("A_T", "D_v_in", "D_v_out", "D_v_in_neg_1", "D_v_out_neg_1", "deg_v_in", "deg_v_out")
        R["reverse"] = lambda o: o.v2v(X, direction="dst2src", aggr="sum")
    for ag in ("sum", "mean", "softmax_then_sum"):
        if kind == "b":
            R["u2v " + ag] = lambda o, ag=ag: o.u2v(XU, aggr=ag)
            R["v2u " + ag] = lambda o, ag=ag: o.v2u(X, aggr=ag)
        else:
            R["v2v " + ag] = lambda o, ag=ag: o.v2v(X, aggr=ag)
    return R


class Race:
    """Run callables in threads with injected delays at library lines; the switch trace is recorded."""

    def __init__(self, ctx, rate):
        self.ctx, self.rate, self.trace = ctx, rate, []

    def run(self, jobs):
        ctx, r = self.ctx, self.ctx.rng.random
        out = [None] * len(jobs)
        gate = threading.Barrier(len(jobs))
        me = threading.local()

        def work(i):
            me.i = i
            gate.wait()
            try:
                out[i] = ("ok", jobs[i]())
            except BaseException as e:  # noqa: B036 (judged by the caller)
                out[i] = ("error", repr(e))

        def perturb(code, line):
            i = getattr(me, "i", None)
            if i is None:
                return
            if not self.trace or self.trace[-1] != i:
                self.trace.append(i)
            x = r()
            if x < self.rate:
                time.sleep(0 if x < self.rate * 0.8 else 2e-5)

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        ctx.perturb = perturb
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
        finally:
            ctx.perturb = None
            sys.setswitchinterval(old)
        ctx.need(not any(t.is_alive() for t in ts), "every reader finishes")
        ctx.event("thread switches", len(self.trace))
        ctx.state("interleaving", tuple(self.trace[:4000]))
        return out


def make(ctx, kind):
    import dhg

    rng = ctx.rng
    if kind == "h":
        hm = H.rand_model(rng, n=rng.choice([2, 4, 6, 9]), vw=rng.random() < 0.5)
        return H.build(dhg, hm), hm, reads("h", hm.n, None, torch.randn(hm.n, 3), None, list(hm.g))
    gm = G.rand_model(rng, kind, n=rng.choice([2, 4, 6, 9]), m=rng.choice([2, 5]) if kind == "b" else None)
    return G.build(dhg, gm), gm, reads(kind, gm.n, gm.m, torch.randn(gm.m if kind == "b" else gm.n, 3), torch.randn(gm.n, 3), [])


def readers(ctx):
    kind = ["g", "d", "b", "h", "h"][ctx.idx % 5]
    rng = ctx.rng
    o, model, R = make(ctx, kind)
    twin = o.clone()
    k = rng.choice([2, 3, 4])
    lists = []
    for _ in range(k):
        names = rng.sample(sorted(R), rng.randint(max(2, len(R) // 3), len(R)))
        if rng.random() < 0.5:
            names = sorted(R, key=lambda a: (a not in names[:4], rng.random()))     # some first, then everything
        lists.append(names)
    if rng.random() < 0.5:     # everybody begins with the same view
        first = rng.choice(sorted(R))
        lists = [[first] + [a for a in x if a != first] for x in lists]
    warm = rng.sample(sorted(R), rng.choice([0, 0, 0, 3]))
    for a in warm:
        R[a](o)
    want = {a: plain(R[a](twin)) for a in R}
    out = Race(ctx, rng.choice([0.05, 0.2, 0.5])).run([lambda x=x: [(a, plain(R[a](o))) for a in x] for x in lists])
    for r in out:
        if ctx.ok(r is not None and r[0] == "ok", "no reader fails", result=r, kind=kind):
            for a, got in r[1]:
                ctx.ok(equal(got, want[a]), "a concurrent reader sees the right value", view=a, got=got, want=want[a], kind=kind)
    for a in R:
        ctx.ok(equal(plain(R[a](o)), want[a]), "concurrent readers leave the right values behind", view=a, kind=kind)
    (H if kind == "h" else G).observe(ctx, o, model, 0.3)
    ctx.event("concurrent readers " + kind)
    ctx.sample(dict(kind=kind, threads=k, first=[x[:4] for x in lists]))


def preempt(ctx):
    """One reader is stopped at a chosen line while another reader runs to its end: single preemptions, line by line."""
    rng = ctx.rng
    kind = ["g", "d", "b", "h", "h"][ctx.idx % 5]
    o, model, R = make(ctx, kind)
    if rng.random() < 0.3:      # some views are there already
        for a in rng.sample(sorted(R), 3):
            R[a](o)
    want = {a: plain(R[a](o.clone())) for a in R}
    me = threading.get_ident()
    names = rng.sample(sorted(R), 12)
    for a in names:
        count = [0]

        def tick(code, line):
            count[0] += threading.get_ident() == me

        c = o.clone()
        ctx.perturb = tick
        try:
            R[a](c)
        finally:
            ctx.perturb = None
        total = count[0]
        for k in sorted(rng.sample(range(total), min(total, 14))):
            c = o.clone()
            b = a if rng.random() < 0.6 else rng.choice(sorted(R))
            got, at, n = [], [None], [0]

            def other():
                try:
                    got.append(("ok", plain(R[b](c))))
                except BaseException as e:  # noqa: B036 (judged below)
                    got.append(("error", repr(e)))

            t = threading.Thread(target=other)

            def stop(code, line):
                if threading.get_ident() != me or at[0] is not None:
                    return
                if n[0] == k:
                    at[0] = (code.co_name, line)
                    t.start()
                    t.join(0.5)      # a reader that waits for a lock goes on afterwards
                n[0] += 1

            ctx.perturb = stop
            try:
                mine = plain(R[a](c))
            finally:
                ctx.perturb = None
            if at[0] is None:
                continue
            t.join(60)
            info = dict(kind=kind, stopped=a, at=at[0], other=b)
            if ctx.ok(bool(got) and got[0][0] == "ok", "no reader fails", result=got, **info):
                ctx.ok(equal(got[0][1], want[b]), "a concurrent reader sees the right value", got=got[0][1], want=want[b], **info)
            ctx.ok(equal(mine, want[a]), "a stopped reader sees the right value", got=mine, want=want[a], **info)
            ctx.ok(equal(plain(R[b](c)), want[b]) and equal(plain(R[a](c)), want[a]), "concurrent readers leave the right values behind", **info)
            ctx.event("preempted at a line")
            ctx.state("preempted", kind, a, b, at[0])


def fewer(rng, w):
    """The same vertices with some of the edges."""
    w = copy.deepcopy(w)
    w["e"] = [rng.sample(es, rng.randint(max(1, len(es) // 2), len(es))) if es else es for es in w["e"]]
    return w


def models(ctx):
    """The same model used by several threads in evaluation mode, on the same structure or each on its own."""
    import dhg

    rng = ctx.rng
    E = zoo.zoo()
    en = E[(ctx.idx * 5 + ctx.seed) % len(E)]
    w = zoo.rand_world(rng, en.kind, 7, 4, 3)
    s = zoo.build(dhg, w)
    net = zoo.settle(en.make(rng, 4, 3, w))
    s2 = zoo.build(dhg, w)
    if en.tie:      # HyperGCN projects at random; its stored graph is fixed at the first call
        if "slow" in en.name:
            return
        en.call(net, s, w["x"])
        s2 = s
    xs = [w["x"]] + [[torch.randn_like(x) for x in w["x"]] for _ in range(rng.choice([1, 2]))]
    own = not en.tie and rng.random() < 0.6      # HyperGCN keeps its first structure
    ws = [w] + [fewer(rng, w) if own else w for _ in xs[1:]]
    with torch.no_grad():
        want = [[y.clone() for y in en.call(net, s2 if v is w else zoo.build(dhg, v), x)] for x, v in zip(xs, ws)]

    def fresh():
        return [s if v is w else zoo.build(dhg, v) for v in ws]

    def job(x, st, k=2):
        with torch.no_grad():
            return [en.call(net, st, x) for _ in range(k)]

    def judge(r, w_, what, **info):
        if ctx.ok(r is not None and r[0] == "ok", "no reader fails", result=r if r and r[0] != "ok" else None, model=en.name, own=own, **info):
            for ys in r[1]:
                ctx.ok(all(torch.allclose(a, b, rtol=1e-4, atol=1e-5) for a, b in zip(ys, w_)), what, model=en.name, own=own, **info)

    out = Race(ctx, rng.choice([0.05, 0.2])).run([lambda x=x, t=t: job(x, t) for x, t in zip(xs, fresh())])
    for r, w_ in zip(out, want):
        judge(r, w_, "a model used by several threads computes the same")
    # one caller stopped at a line inside the model while another one runs through
    me = threading.get_ident()
    at = [None]

    def tick(code, line):
        n[0] += threading.get_ident() == me

    n, a = [0], fresh()
    ctx.perturb = tick
    try:
        job(xs[0], a[0], 1)
    finally:
        ctx.perturb = None
    for k in sorted(rng.sample(range(n[0]), min(n[0], 12))):
        n, got, at, a = [0], [], [None], fresh()

        def other():
            try:
                got.append(("ok", job(xs[1], a[1], 1)))
            except BaseException as e:  # noqa: B036 (judged below)
                got.append(("error", repr(e)))

        t = threading.Thread(target=other)

        def stop(code, line):
            if threading.get_ident() != me or at[0] is not None:
                return
            if n[0] == k:
                at[0] = (code.co_name, line)
                t.start()
                t.join(0.5)
            n[0] += 1

        ctx.perturb = stop
        try:
            mine = ("ok", job(xs[0], a[0], 1))
        except Exception as e:  # judged below
            mine = ("error", repr(e))
        finally:
            ctx.perturb = None
        if at[0] is None:
            continue
        t.join(60)
        judge(got[0] if got else None, want[1], "a model used by several threads computes the same", at=at[0])
        judge(mine, want[0], "a stopped caller of a model computes the same", at=at[0])
        ctx.event("model preempted")
        ctx.state("model preempted", en.name, at[0])
    ctx.event("concurrent models")


def writer(ctx):
    """Each thread edits its own clone; neither sees the other or the source."""
    import dhg

    rng = ctx.rng
    kind = ["g", "d", "b", "h"][ctx.idx % 4]
    o, model, R = make(ctx, kind)
    k = rng.choice([2, 3])
    clones = [o.clone() for _ in range(k)]
    plans = []
    for _ in range(k):
        if kind == "h":
            mm = model.copy()
            es = [tuple(sorted(set(e))) for e in H.rand_es(rng, mm, 4)]
            ws = [float(rng.choice([0.5, 1.0, 2.0])) for _ in es]
            mm.add(es, ws, "sum")
        else:
            mm = model.copy()
            es = G.rand_edges(rng, mm, 4)
            ws = [float(rng.choice([0.5, 1.0, 2.0])) for _ in es]
            mm.add(es, ws, "sum")
        plans.append((mm, es, ws))

    def job(c, p):
        names = list(R)[:6]
        for a in names:
            R[a](c)
        for e, w in zip(p[1], p[2]):
            (c.add_hyperedges if kind == "h" else c.add_edges)([list(e)], [w], merge_op="sum")
            R[names[0]](c)
        return plain(c.e)

    out = Race(ctx, 0.2).run([lambda c=c, p=p: job(c, p) for c, p in zip(clones, plans)])
    for r, c, p in zip(out, clones, plans):
        if ctx.ok(r is not None and r[0] == "ok", "no writer fails", result=r, kind=kind):
            (H if kind == "h" else G).observe(ctx, c, p[0], 0.4)
    (H if kind == "h" else G).observe(ctx, o, model, 0.4)
    ctx.event("concurrent writers")


def copies(ctx):
    """Pickled and deeply copied structures are the same and independent."""
    rng = ctx.rng
    kind = ["g", "d", "b", "h"][ctx.idx % 4]
    o, model, R = make(ctx, kind)
    for a in rng.sample(sorted(R), rng.choice([0, 2, len(R)])):
        R[a](o)
    mod = H if kind == "h" else G
    for way in ("pickle", "deepcopy"):
        c = pickle.loads(pickle.dumps(o)) if way == "pickle" else copy.deepcopy(o)
        ctx.ok(type(c) is type(o), "a copy has its class")
        mod.observe(ctx, c, model, 0.5)
        m2 = model.copy()
        for _ in range(3):
            r = mod.edit(ctx, c, m2)
            if kind != "h":
                c, m2, _ = r
        mod.observe(ctx, c, m2, 0.5)
        mod.observe(ctx, o, model, 0.4)
        ctx.event("copied by " + way)
    ctx.state("copy", kind, model.fp())


def workers(ctx):
    """A loader with worker processes yields the interactions a loader without yields, in the same order."""
    from torch.utils.data import DataLoader

    from dhg.utils import UserItemDataset

    rng = ctx.rng
    nu, ni = rng.randint(3, 6), rng.randint(6, 12)
    pairs = [(u, i) for u in range(nu) for i in rng.sample(range(ni), rng.randint(1, 4))]
    ds = UserItemDataset(nu, ni, pairs, phase="train", strict_link=True)
    bs = rng.choice([1, 4, 50])
    got = [torch.stack([torch.as_tensor(c) for c in b], 1) for b in DataLoader(ds, batch_size=bs, num_workers=2)]
    rows = torch.cat(got).tolist()
    ctx.ok([tuple(r[:2]) for r in rows] == pairs, "worker processes deliver each interaction once, in order", got=rows[:10], want=pairs[:10])
    pos = set(pairs)
    ctx.ok(all((u, n) not in pos and 0 <= n < ni for u, _, n in rows), "worker processes sample valid negatives", got=rows[:10])
    ctx.event("worker processes")
    ctx.state("workers", nu, ni, pairs, bs)


def functions(ctx):
    """Threads call the library's functions on inputs of their own: nothing is shared behind their backs."""
    rng = ctx.rng
    k = rng.choice([2, 3])
    cats = [catalog.calls(rng) for _ in range(k)]
    names = sorted(cats[0])
    want = [{a: c[a]() for a in names} for c in cats]
    pick = rng.sample(names, 14)
    lists = [list(pick) if rng.random() < 0.7 else rng.sample(pick, len(pick)) for _ in cats]
    out = Race(ctx, rng.choice([0.05, 0.2])).run([lambda c=c, x=x: [(a, c[a]()) for a in x] for c, x in zip(cats, lists)])
    for r, w in zip(out, want):
        if ctx.ok(r is not None and r[0] == "ok", "no caller fails", result=r):
            for a, got in r[1]:
                ctx.ok(equal(got, w[a]), "a function called by several threads gives each its own result", function=a, got=got, want=w[a])
    # one caller stopped at a line while another one runs through
    me = threading.get_ident()
    for a in rng.sample(names, 8):
        count = [0]

        def tick(code, line):
            count[0] += threading.get_ident() == me

        ctx.perturb = tick
        try:
            cats[0][a]()
        finally:
            ctx.perturb = None
        for at in rng.sample(range(count[0]), min(count[0], 5)):
            n, got, on = [0], [], [False]

            def other():
                try:
                    got.append(("ok", cats[1][a]()))
                except BaseException as e:  # noqa: B036 (judged below)
                    got.append(("error", repr(e)))

            t = threading.Thread(target=other)

            def stop(code, line):
                if threading.get_ident() != me or on[0]:
                    return
                if n[0] == at:
                    on[0] = True
                    t.start()
                    t.join(0.5)
                n[0] += 1

            ctx.perturb = stop
            try:
                mine = cats[0][a]()
            finally:
                ctx.perturb = None
            if not on[0]:
                continue
            t.join(60)
            if ctx.ok(bool(got) and got[0][0] == "ok", "no caller fails", result=got, function=a):
                ctx.ok(equal(got[0][1], want[1][a]), "a function called by several threads gives each its own result", function=a, got=got[0][1], want=want[1][a])
            ctx.ok(equal(mine, want[0][a]), "a stopped function gives its own result", function=a, got=mine, want=want[0][a])
            ctx.event("function preempted")
    ctx.event("concurrent functions")
    ctx.state("functions", pick, len(cats))


SCENARIOS = [("functions", functions, 12, 200), ("readers", readers, 120, 2500), ("preempt", preempt, 60, 1500), ("models", models, 50, 800), ("writer", writer, 40, 800), ("copies", copies, 80, 1500), ("workers", workers, 3, 20)]
REQUIRED_EVENTS = {"thread switches": 3000, "preempted at a line": 1500, "concurrent readers h": 30, "concurrent models": 30, "model preempted": 200, "concurrent writers": 20, "copied by pickle": 50, "worker processes": 1, "concurrent functions": 5, "function preempted": 100}
ASSUMPTIONS = ["CPython with its global lock: threads switch between library lines, not inside torch kernels", "nobody edits the structure while others read it", "HyperGCN is compared with its stored graph (fast mode)"]
