"""Save / load / state_dict round trips."""
import copy
import pathlib
import pickle

from lib import gmodel as G
from lib import hmodel as H

RULE = "one state per distinct structure state that went through a file or state_dict round trip"


def views_equal(ctx, s, m, share=1.0):
    (H if isinstance(m, H.HM) else G).observe(ctx, s, m, share)


def content(s, hyper):
    """Everything a structure stores, to the last digit and in its order (features are aligned with it)."""
    c = [s.e[0], s.e[1]]
    if hyper:
        c += [list(s.group_names), list(s.v_weight), s.v2e_src.tolist(), s.v2e_dst.tolist()]
        c += [s.e_of_group(name) for name in s.group_names]
    return c


def one(ctx, huge=False):
    import dhg

    rng = ctx.rng
    kind = "gdbh"[ctx.idx % 4] if huge else rng.choice(["g", "d", "b", "h", "h"])
    if huge:
        m = H.huge_model(rng) if kind == "h" else G.huge_model(rng, kind)
        if kind in "gd":      # many self-loops, added in any order
            vs = rng.sample(range(m.n), rng.choice([150, 400]))
            m.loops.update({v: float(rng.choice([1.0, 0.5, 2.0])) for v in vs})
        s = (H if kind == "h" else G).build(dhg, m)
        step = lambda s, m: (H.edit(ctx, s, m), (s, m))[1] if kind == "h" else G.edit(ctx, s, m)[:2]
        d = ctx.tmp()
        s.save(d / "huge")
        for t in (dhg.load_structure(d / "huge"), type(s).load(d / "huge")):
            ctx.ok(content(t, kind == "h") == content(s, kind == "h"), "a large structure comes back exactly")
            views_equal(ctx, t, m, 0.3)
        ctx.event("huge")
        return
    if kind == "h":
        m = H.rand_model(rng, vw=rng.random() < 0.7) if rng.random() < 0.9 else H.HM(rng.randint(1, 5))
        s = H.build(dhg, m)
        step = lambda s, m: (H.edit(ctx, s, m), (s, m))[1]
    else:
        m = G.rand_model(rng, kind)
        s = G.build(dhg, m)
        step = lambda s, m: G.edit(ctx, s, m)[:2]
    if rng.random() < 0.5:
        views_equal(ctx, s, m, 0.4)
    for _ in range(rng.choice([0, 1, 2])):
        s, m = step(s, m)
    d = ctx.tmp()
    p = d / rng.choice(["a.dhg", "structure", "x y.pkl"])
    arg = p if rng.random() < 0.5 else str(p)
    if rng.random() < 0.3:
        p.write_bytes(b"junk that must be overwritten")
    if rng.random() < 0.5:                          # the same file held another structure a moment ago
        other = H.build(dhg, H.rand_model(rng)) if rng.random() < 0.4 else type(s).from_state_dict(s.state_dict)
        if rng.random() < 0.5 and other.num_v > 1 and type(other) is type(s):
            other.add_hyperedges([[0, 1]], [3.25]) if kind == "h" else other.add_edges([(0, 0)], [3.25])
        other.save(arg)
        ctx.ok(content(dhg.load_structure(arg), type(other) is dhg.Hypergraph) == content(other, type(other) is dhg.Hypergraph),
               "the structure saved first comes back")
        ctx.event("file reused")
    s.save(arg)
    saved = m.copy()
    kept = copy.deepcopy(content(s, kind == "h"))
    # later edits of the original must not reach the file
    for _ in range(rng.choice([0, 1, 2])):
        s, m = step(s, m)
    loaders = [("class", lambda: type(s).load(arg)), ("load_structure", lambda: dhg.load_structure(arg))]
    rng.shuffle(loaders)
    for how, f in loaders:
        t = f()
        ctx.ok(type(t) is type(s), "round trip keeps the class", how=how, got=type(t).__name__, want=type(s).__name__)
        tm = saved.copy()
        ctx.ok(content(t, kind == "h") == kept, "weights to the last digit and the order of edges come back", how=how, kind=kind)
        views_equal(ctx, t, tm)
        for _ in range(3):
            t, tm = step(t, tm)
            views_equal(ctx, t, tm, 0.3)
        views_equal(ctx, t, tm)
        ctx.event("loaded by " + how)
    t = type(s).from_state_dict(s.state_dict)
    ctx.ok(type(t) is type(s), "from_state_dict keeps the class")
    ctx.ok(content(t, kind == "h") == content(s, kind == "h"), "the state holds weights to the last digit and the order of edges")
    tm = m.copy()
    views_equal(ctx, t, tm)
    t, tm = step(t, tm)
    views_equal(ctx, t, tm)
    views_equal(ctx, s, m)
    # a second generation
    q = d / "second"
    t.save(q)
    views_equal(ctx, dhg.load_structure(q), tm)
    # refused: wrong class, missing file, missing directory
    classes = {"g": dhg.Graph, "d": dhg.DiGraph, "b": dhg.BiGraph, "h": dhg.Hypergraph}
    for k, c in classes.items():
        if k != kind:
            ctx.raises(lambda: c.load(arg), "loading another class is refused", cls=c.__name__, saved=kind)
    ctx.raises(lambda: type(s).load(d / "nothing here"), "a missing file is refused")
    ctx.raises(lambda: dhg.load_structure(d / "nothing here"), "a missing file is refused")
    ctx.raises(lambda: s.save(d / "no" / "such" / "dir"), "a missing directory is refused")
    ctx.state(saved.fp())
    ctx.event("kind:" + kind)
    ctx.sample({"kind": kind, "saved": saved.fp()})


SCENARIOS = [("round trip", one, 220, 4000), ("huge", lambda c: one(c, True), 4, 24)]
REQUIRED_EVENTS = {"kind:g": 10, "kind:d": 10, "kind:b": 10, "kind:h": 10}
ASSUMPTIONS = ["files are read back by the same library version"]
