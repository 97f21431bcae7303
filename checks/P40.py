"""Nothing is kept alive or left behind: structures, views, models, evaluator batches, files, threads."""
import gc
import hashlib
import os
import pickle
import sys
import threading
import warnings
import weakref

import torch

from lib import catalog
from lib import fakenet
from lib import gmodel as G
from lib import hmodel as H
from lib import zoo
from lib.seedtrace import ops

RULE = "one state per distinct (structure or model, use) whose memory, files and threads were audited"


frozen = []


def tensors():
    if not frozen:      # what the imports built is not looked at again and again
        import dhg.visualization  # noqa: F401

        gc.collect()
        gc.freeze()
        frozen.append(True)
    gc.collect()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return sum(1 for o in gc.get_objects() if issubclass(type(o), torch.Tensor))


def handles():
    return len(os.listdir("/proc/self/fd")), threading.active_count()


def steady(ctx, work, what, rounds=6, **info):
    """Doing the same again and again does not keep more tensors, files or threads (a few further cached views may appear)."""
    work()
    work()
    t, h = tensors(), handles()
    for _ in range(rounds):
        work()
    t2, h2 = tensors(), handles()
    ctx.ok(t2 - t < rounds - 1, "doing the same again keeps no more tensors alive", what=what, before=t, after=t2, rounds=rounds, **info)
    ctx.ok(h2[0] <= h[0] and h2[1] <= h[1], "no files or threads stay open", what=what, before=h, after=h2, **info)
    ctx.event("audited " + what)


def make(ctx, kind):
    import dhg

    rng = ctx.rng
    if kind == "h":
        hm = H.rand_model(rng, vw=rng.random() < 0.5)
        return H.build(dhg, hm), hm
    gm = G.rand_model(rng, kind)
    return G.build(dhg, gm), gm


def look(ctx, o, m):
    (H if isinstance(m, H.HM) else G).observe(ctx, o, m)


def structures(ctx):
    """A structure is freed with its last reference, whatever was read from it or derived from it."""
    import dhg

    rng = ctx.rng
    kind = ["g", "d", "b", "h"][ctx.idx % 4]
    base = tensors()
    o, m = make(ctx, kind)
    look(ctx, o, m)
    keep = [o.clone()]
    if kind == "g":
        keep += [o.drop_edges(0.3), dhg.Hypergraph.from_graph(o), dhg.Hypergraph.from_graph_kHop(o, 2)]
    elif kind == "d":
        keep += [o.drop_edges(0.3)]
    elif kind == "b":
        keep += [o.drop_edges(0.3), dhg.Hypergraph.from_bigraph(o, U_as_vertex=rng.random() < 0.5)]
    else:
        keep += [o.drop_hyperedges(0.3), dhg.Graph.from_hypergraph_clique(o), dhg.BiGraph.from_hypergraph(o)]
        if o.num_e and all(len(e) > 1 for e in o.e[0]):
            keep.append(dhg.Graph.from_hypergraph_hypergcn(o, torch.randn(o.num_v, 2)))
    o.to(torch.device("cpu"))
    if ctx.idx // 4 % 2:
        (o.remove_hyperedges if kind == "h" else o.remove_edges)(o.e[0][:2])
    if kind in "gd":
        o.add_extra_selfloop()
        o.e, o.A
        ctx.event("extra self-loops")
    r = weakref.ref(o)
    gc.disable()
    del o
    ctx.ok(r() is None, "a structure is freed at once, without waiting for the cycle collector", kind=kind, model=m.fp())
    gc.enable()
    gc.collect()
    ctx.ok(r() is None, "a structure is freed with its last reference", kind=kind, referrers=[type(x).__name__ for x in gc.get_referrers(r())] if r() is not None else None)
    rs = [weakref.ref(x) for x in keep]
    gc.disable()
    del keep
    ctx.ok(all(x() is None for x in rs), "derived structures are freed at once", kind=kind)
    gc.enable()
    gc.collect()
    ctx.ok(all(x() is None for x in rs), "derived structures are freed with their last reference", kind=kind)
    ctx.ok(tensors() <= base, "no tensor outlives the structures", kind=kind, before=base, after=tensors())
    ctx.event("structures freed")
    ctx.state(kind, m.fp())
    ctx.sample({"kind": kind, "model": m.fp()})


def reads(ctx):
    """Reading, passing messages, editing back and forth, saving and loading in a loop needs constant memory."""
    rng = ctx.rng
    kind = ["g", "d", "b", "h"][ctx.idx % 4]
    o, m = make(ctx, kind)
    path = ctx.tmp() / "s.dhg"
    if kind == "h":
        es = [list(e) for e in H.rand_es(rng, m, 3)]
        fresh = [e for e in es if tuple(sorted(set(e))) not in {k for g in m.g.values() for k in g}]
    else:
        have = set(m.w) | ({(b, a) for a, b in m.w} if kind == "g" else set())
        fresh = [e for e in G.rand_edges(rng, m, 4) if tuple(e) not in have and (kind == "b" or e[0] != e[1])]
    X, XU = torch.randn(m.m if kind == "b" else m.n, 3, requires_grad=True), torch.randn(m.n, 3)

    def work():
        look(ctx, o, m)
        if kind == "b":
            y = o.v2u(X, aggr="mean")
        else:
            y = o.v2v(X, aggr="mean")
        y.sum().backward()
        X.grad = None
        if kind == "h":
            o.smoothing_with_HGNN(X)
            if fresh:
                o.add_hyperedges(fresh, group_name="guest")
                look_anyhow(o)
                o.remove_group("guest")
            o.drop_hyperedges(0.5)
        else:
            if fresh:
                o.add_edges(fresh)
                look_anyhow(o)
                o.remove_edges(fresh)
            o.drop_edges(0.5)
        o.save(path)
        type(o).load(path)
        o.clone()

    steady(ctx, work, "structure " + kind)
    ctx.ok(sorted(os.listdir(path.parent)) == ["s.dhg"], "saving leaves one file", got=sorted(os.listdir(path.parent)))
    ctx.state("reads", kind, m.fp())


def look_anyhow(o):
    for a in ("A", "H", "L_GCN", "L_HGNN", "e_weight"):
        if hasattr(type(o), a):
            getattr(o, a)


def models(ctx):
    """Training and evaluating a model needs constant memory; the model is freed with its last reference and keeps no structure alive."""
    import dhg

    rng = ctx.rng
    E = zoo.zoo()
    en = E[(ctx.idx * 7 + ctx.seed) % len(E)]
    w = zoo.rand_world(rng, en.kind, 7, 4, 3)
    net = en.make(rng, 4, 3, w)
    opt = torch.optim.Adam(net.parameters(), lr=0.01)
    s = zoo.build(dhg, w)

    def work(structs=None):
        st = structs or s
        net.train()
        opt.zero_grad()
        if en.name != "BGNN_Adv":
            out = en.call(net, st, w["x"])
            sum(y.square().sum() for y in out).backward()
            opt.step()
        opt.zero_grad()
        net.eval()
        with torch.no_grad():
            en.call(net, st, w["x"])

    steady(ctx, work, "model", model=en.name)
    if not en.tie:        # HyperGCN keeps its first graph by design; others see a fresh structure each time
        steady(ctx, lambda: work(zoo.build(dhg, w)), "model with fresh structures", model=en.name)
    st = zoo.build(dhg, w)
    work(st)
    rs = [weakref.ref(x) for x in st]
    del st
    gc.collect()
    ctx.ok(all(x() is None for x in rs), "a model keeps no structure alive", model=en.name)
    r = weakref.ref(net)
    del net, opt, work
    gc.collect()
    ctx.ok(r() is None, "a model is freed with its last reference", model=en.name)
    ctx.event("models freed")
    ctx.state("model", en.name, w["e"])


def evaluators(ctx):
    """An evaluator forgets the batches of an epoch that it has summed up."""
    from dhg.metrics import RetrievalEvaluator, UserItemRecommenderEvaluator, VertexClassificationEvaluator

    rng = ctx.rng
    kind = ["retrieval", "recommender", "class"][ctx.idx % 3]
    vi = 0
    if kind == "class":
        ev = VertexClassificationEvaluator(["accuracy", {"f1_score": {"average": "macro"}}], vi)
    else:
        ev = (RetrievalEvaluator if kind == "retrieval" else UserItemRecommenderEvaluator)([{"precision": {"k": 2}}, {"ndcg": {"k": 3}}, "recall"], vi)
    n, c = rng.randint(3, 8), rng.randint(4, 7)

    def epoch(phase):
        if kind == "class":
            T, P = torch.randint(0, c, (n,)), torch.randn(n, c)
            return ev.validate(T, P) if phase == "validate" else ev.test(T, P)
        for _ in range(3):
            T = (torch.rand(n, c) < 0.4).float()
            T[:, 0] = 1
            P = torch.rand(n, c)
            (ev.validate_add_batch if phase == "validate" else ev.test_add_batch)(T, P)
        return ev.validate_epoch_res() if phase == "validate" else ev.test_epoch_res()

    def work():
        epoch("validate")
        epoch("test")

    steady(ctx, work, "evaluator", evaluator=kind)
    a = len(pickle.dumps(ev.__dict__, protocol=4))
    for _ in range(6):
        work()
    b = len(pickle.dumps(ev.__dict__, protocol=4))
    ctx.ok(b <= a + 400, "an evaluator does not grow from epoch to epoch", before=a, after=b, evaluator=kind)
    ctx.state("evaluator", kind, n, c, a)


def files(ctx):
    """Loading and downloading leave no file open and nothing but the asked-for file behind, also when they fail."""
    import requests
    from dhg.datapipe import load_from_json, load_from_pickle, load_from_txt
    from dhg.utils import check_file, download_and_check, download_file

    rng = ctx.rng
    d = ctx.tmp()
    body = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 900, 5000])))
    md5 = hashlib.md5(body).hexdigest()
    (d / "a.pkl").write_bytes(pickle.dumps({"x": 1, "y": [2]}))
    (d / "a.json").write_text('{"x": [1, 2]}')
    (d / "a.txt").write_text("1 2\n3 4\n")
    (d / "bad").write_bytes(b"\x80\x05garbage")
    how = rng.choice(["ok", "ok", "conn", "cut", "status", "wrong"])
    acts = {"ok": ("ok", body), "conn": ("conn",), "cut": ("cut", body[: len(body) // 2] + b"x"), "status": ("status", 404), "wrong": ("ok", body + b"!")}
    n = [0]

    def quiet(f):
        try:
            f()
        except (requests.RequestException, OSError, ValueError, pickle.UnpicklingError, AssertionError, KeyError, EOFError, AttributeError, RuntimeError, TypeError):
            ctx.event("failed as expected")

    def work():
        for f in (lambda: load_from_pickle(d / "a.pkl"), lambda: load_from_pickle(d / "a.pkl", keys=["x"]), lambda: load_from_json(d / "a.json"),
                  lambda: load_from_txt(d / "a.txt", "int", sep=" "), lambda: check_file(d / "a.txt", md5)):
            f()
        quiet(lambda: load_from_pickle(d / "bad"))
        quiet(lambda: load_from_json(d / "bad"))
        quiet(lambda: load_from_txt(d / "bad", "int", sep=" "))
        n[0] += 1
        with fakenet.serve(lambda url, k: acts[how]):
            quiet(lambda: download_file("http://x.invalid/f", d / "got"))
            quiet(lambda: download_and_check("http://x.invalid/f", d / ("f%d" % n[0]), md5))
        for p in d.glob("f*"):
            if p.name[1:].isdigit():
                p.unlink()

    cwd, before = os.getcwd(), set(os.listdir("."))
    out = sys.stdout
    steady(ctx, work, "files", how=how)
    left = sorted(set(os.listdir(d)) - {"a.pkl", "a.json", "a.txt", "bad", "got"})
    ctx.ok(not left, "nothing is left behind beside the asked-for file", left=left, how=how)
    ctx.ok(os.getcwd() == cwd and set(os.listdir(".")) == before and sys.stdout is out, "working directory and standard output are left alone")
    ctx.event("download " + how)
    ctx.state("files", how, md5)


def ours():
    """Live structures, layers, models, data sets and evaluators."""
    gc.collect()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return sum(1 for o in gc.get_objects() if str(type(o).__module__).startswith("dhg"))


def functions(ctx):
    """Calling the library's functions again and again, with new inputs each time, keeps none of their inputs or results alive."""
    rng = ctx.rng
    d = ctx.tmp()
    half = ctx.idx % 2
    fixed = rng.random() < 0.3
    k = [1, 1, 12][ctx.idx % 3]
    cat = catalog.calls(rng, d, k)
    names = sorted(cat)[half::2]

    def work():
        c = cat if fixed else catalog.calls(rng, d, k)
        for n in names:
            c[n]()

    n0 = ours()
    steady(ctx, work, "functions", functions=len(names), fixed=fixed, scale=k)
    ctx.ok(ours() <= n0, "no structure or model outlives the functions", before=n0, after=ours())
    ctx.event("functions audited", len(names))
    ctx.state("functions", half, fixed, k, ctx.idx)


def randoms(ctx):
    """The same for the functions with random outcomes."""
    names = sorted(n for n in ops() if not n.startswith("draw_"))
    names = names[ctx.idx % 3::3]
    v = ctx.idx // 3 % 3

    def work():
        t = ops(v)
        for n in names:
            t[n]()

    work()
    n0 = ours()
    steady(ctx, work, "random functions", functions=names, inputs=v)
    ctx.ok(ours() <= n0, "no structure or model outlives the functions", before=n0, after=ours())
    ctx.event("functions audited", len(names))
    ctx.state("randoms", ctx.idx)


SCENARIOS = [("functions", functions, 6, 60), ("randoms", randoms, 9, 36), ("structures", structures, 24, 400), ("reads", reads, 24, 300), ("models", models, 32, 400), ("evaluators", evaluators, 9, 120), ("files", files, 16, 200)]
REQUIRED_EVENTS = {"structures freed": 15, "models freed": 20, "audited evaluator": 5, "audited files": 8, "functions audited": 100}
ASSUMPTIONS = ["CPython reference counting and one cycle collection", "plots (matplotlib keeps figures) and experiments (optuna keeps log handlers) are not audited",
               "HyperGCN in fast mode keeps the graph of its first call by design"]
