"""Drawings show exactly the structure: the figure's artists are read back and compared with it."""
import copy
import sys

import numpy as np

from lib import gmodel as G
from lib import hmodel as H

RULE = "one state per distinct drawn (structure, style options)"
COLORS = ["red", "blue", "green", "orange", "purple", "cyan", "magenta", "olive", "brown", "pink", "black", "navy", "gold", "teal", "lime", "gray"]


def rgba(c):
    from matplotlib.colors import to_rgba

    return tuple(round(float(x), 4) for x in to_rgba(c))


def palette(k, rng):
    """k different colours, in different spellings."""
    out = []
    for i in range(k):
        x = (round(0.05 + 0.9 * i / max(k, 1), 4), round(rng.random(), 3), round(rng.random(), 3))
        out.append("#%02x%02x%02x" % tuple(int(255 * v) for v in x))
    rng.shuffle(out)
    return out


def read(ctx, fig):
    """(vertices, labels, patches) of the only axes of a figure, in data coordinates."""
    from matplotlib.collections import PatchCollection

    ctx.need(len(fig.axes) == 1, "one set of axes", got=len(fig.axes))
    ax = fig.axes[0]
    ctx.ok(tuple(ax.get_xlim()) == (0.0, 1.0) and tuple(ax.get_ylim()) == (0.0, 1.0) and not ax.axison, "the unit square without axes")
    cs = [c for c in ax.collections if isinstance(c, PatchCollection)]
    ctx.need(len(cs) == 1, "one collection of vertices", got=len(cs))
    vs = []
    for p in cs[0].get_paths():
        v = p.vertices
        lo, hi = v.min(0), v.max(0)
        vs.append(((lo + hi) / 2, float((hi - lo)[0] / 2), float((hi - lo)[1] / 2)))
    lw = list(np.broadcast_to(cs[0].get_linewidths(), len(vs))) if len(cs[0].get_linewidths()) in (1, len(vs)) else None
    fc = cs[0].get_facecolors()
    fc = [tuple(round(float(x), 4) for x in fc[i % len(fc)]) for i in range(len(vs))]
    return ax, vs, lw, fc, list(ax.texts), list(ax.patches)


def close_all():
    import matplotlib.pyplot as plt

    plt.close("all")


def shot(ctx, fn, obj, kw):
    """Draw and hand back what the figure shows."""
    import matplotlib.pyplot as plt

    close_all()
    kept = copy.deepcopy(kw)
    fn(obj, **kw)
    ctx.need(len(plt.get_fignums()) == 1, "one figure", got=len(plt.get_fignums()))
    fig = plt.figure(plt.get_fignums()[0])
    ctx.ok(kw == kept, "the style lists are kept")
    if ctx.rng.random() < 0.15:
        fig.canvas.draw()
        ctx.event("rendered")
    return read(ctx, fig)


def scal(rng, k, lst=True):
    """A size option: (argument, scale per element)."""
    r = rng.random()
    if r < 0.3:
        return None, [1.0] * k
    if r < 0.5:
        s = rng.choice([0.5, 1.5, 2.0])
        return s, [s] * k
    if r < 0.65:
        return 2, [2.0] * k
    v = [round(rng.uniform(0.4, 2.0), 3) for _ in range(k)]
    return v, v


def col(rng, k):
    r = rng.random()
    if r < 0.3:
        return None, None
    if r < 0.5:
        c = rng.choice(COLORS)
        return c, [c] * k
    v = palette(k, rng)
    return v, v


def relate(ctx, what, got, base, scale, **info):
    ok = len(got) == len(base) == len(scale) and all(abs(a - b * s) <= 1e-6 + 1e-4 * abs(b * s) for a, b, s in zip(got, base, scale))
    ctx.ok(ok, what, got=got, default=base, scale=scale, **info)


def check_vertices(ctx, n, S, base, vscale, vlw, vcol, defcol, single):
    ax, vs, lw, fc, texts, patches = S
    ctx.need(len(vs) == n, "one circle per vertex", got=len(vs), want=n)
    xy = np.array([v[0] for v in vs])
    ctx.ok(bool(np.isfinite(xy).all()) and bool((xy > 0.1 - 1e-6).all()) and bool((xy < 0.9 + 1e-6).all()), "vertices lie within the picture", xy=xy.tolist())
    if n > 1:
        ctx.ok(np.allclose(xy.min(0), 0.1, atol=1e-5) and np.allclose(xy.max(0), 0.9, atol=1e-5), "the layout fills the picture", lo=xy.min(0), hi=xy.max(0))
        d = np.sqrt(((xy[:, None] - xy[None]) ** 2).sum(-1)) + 9 * np.eye(n)
        ctx.ok(float(d.min()) > 0, "no two vertices coincide")
    ctx.ok(all(abs(a - b) < 1e-6 and a > 0 for _, a, b in vs), "vertices are circles")
    relate(ctx, "vertex sizes scale as asked", [v[1] for v in vs], [v[1] for v in base[1]], vscale)
    if ctx.ok(lw is not None and base[2] is not None, "one line width per vertex"):
        relate(ctx, "vertex line widths scale as asked", lw, base[2], vlw)
    want = [rgba(c) for c in (vcol or defcol)]
    ctx.ok(all(max(abs(a - b) for a, b in zip(x, y)) < 1e-3 for x, y in zip(fc, want)), "vertex colours are as asked", got=fc[:6], want=want[:6])
    return xy


def some_labels(rng, s, n):
    """Labels need not be different, nor short, nor ASCII."""
    if rng.random() < 0.4:
        pool = rng.sample(["ab", "B", "a b", "\u00fcber", "0", "None", "a much longer label", "-", "nan"], 3)
        return [rng.choice(pool) if rng.random() < 0.9 else "" for _ in range(n)]
    return [s + str(i) if rng.random() < 0.8 else "" for i in range(n)]


def check_labels(ctx, S, xy, labels, sizes, base_font, scale, family):
    texts = S[4]
    exp = [i for i, l in enumerate(labels or []) if l != ""]
    ctx.need(len(texts) == len(exp), "one text per label", got=len(texts), want=len(exp))
    for t, i in zip(texts, exp):
        ctx.ok(t.get_text() == labels[i], "labels are the given ones, in order", got=t.get_text(), want=labels[i])
        x, y = t.get_position()
        ctx.ok(abs(x - xy[i][0]) < 1e-6 and xy[i][1] - 4 * sizes[i] < y < xy[i][1] - sizes[i] and t.get_ha() == "center", "a label stands below its vertex", label=labels[i])
        if base_font is not None and base_font[i] > 1:      # matplotlib draws no font smaller than 1
            ctx.ok(abs(t.get_fontsize() - max(1.0, base_font[i] * scale[i])) < 1e-3 * base_font[i] * scale[i], "the font size scales as asked", got=t.get_fontsize(), want=base_font[i] * scale[i])
        if family:
            ctx.ok(t.get_fontfamily() == [family], "the font family is the given one", got=t.get_fontfamily())


def check_lines(ctx, S, xy, es, sizes, base, scale, ecol, arrow, **info):
    """One arrow per edge that is no loop, between the rims of its ends."""
    patches = S[5]
    real = [i for i, (a, b) in enumerate(es) if a != b]
    if not ctx.ok(len(patches) == len(real), "one line per edge", got=len(patches), want=len(real), edges=es, **info):
        return
    got_lw = []
    for p, i in zip(patches, real):
        a, b = es[i]
        v = p.get_path().vertices
        v = p.get_patch_transform().transform(v)
        ctx.ok(bool(np.isfinite(v).all()), "finite coordinates", edge=es[i])
        d = xy[b] - xy[a]
        L = np.linalg.norm(d)
        u = d / L
        w = np.array([-u[1], u[0]])
        along, off = (v - xy[a]) @ u, (v - xy[a]) @ w
        start, end = sizes[a], L - sizes[b]
        lo, hi = min(start, end), max(start, end)
        short = arrow and end - start < 0.03      # the head alone is longer
        ctx.ok(abs(along.min() - lo) < 2e-3 + (0.05 if start > end or short else 0) and abs(along.max() - hi) < 2e-3 + (0.05 if start > end else 0),
               "a line runs from rim to rim of its edge's ends", edge=es[i], got=(along.min(), along.max()), want=(start, end), **info)
        lim = 0.015 * p.get_linewidth() + 0.002 if arrow else 0.002
        ctx.ok(abs(off).max() <= lim, "a line is straight", edge=es[i], spread=abs(off).max())
        if arrow and start < end - 0.03 and p.get_linewidth() > 0.5:
            wide = along[abs(off) > 0.002]
            ctx.ok(len(wide) > 0 and wide.min() > (start + end) / 2 - 0.02, "the arrow points to the destination", edge=es[i], got=wide.tolist()[:4])
            ctx.event("arrow head")
        got_lw.append(p.get_linewidth())
        want = rgba(ecol[i])
        ctx.ok(all(abs(x - y) < 1e-3 for x, y in zip(p.get_edgecolor(), want)), "line colours are as asked", edge=es[i], got=p.get_edgecolor(), want=want)
    if base is not None:
        relate(ctx, "line widths scale as asked", got_lw, [p.get_linewidth() for p in base[5]], [scale[i] for i in real])


def outlines(ctx, S, xy, es, sizes, base, scale, ecol, efill, unique, **info):
    """Hull outlines of hyperedges, told apart by their colour; see P35 for their geometry."""
    from matplotlib.patches import Arc, PathPatch

    patches = S[5]
    if not unique:
        return
    col_of = {rgba(c): i for i, c in enumerate(ecol)}
    if len(col_of) < len(es):
        return
    arcs, lines = {}, {}
    for p in patches:
        c = tuple(round(float(x), 4) for x in p.get_edgecolor())
        i = min(range(len(es)), key=lambda k: max(abs(a - b) for a, b in zip(rgba(ecol[k]), c)))
        ctx.ok(max(abs(a - b) for a, b in zip(rgba(ecol[i]), c)) < 1e-3, "outline colours are as asked", got=c)
        if isinstance(p, Arc):
            arcs.setdefault(i, []).append(p)
        elif isinstance(p, PathPatch):
            lines.setdefault(i, []).append(p)
        if efill and isinstance(p, PathPatch):
            ctx.ok(max(abs(a - b) for a, b in zip(rgba(efill[i]), p.get_facecolor())) < 1e-3, "fill colours are as asked")
    for i, e in enumerate(es):
        vs = set(e)
        if not ctx.ok(i in arcs, "every edge has an outline", edge=e, **info):
            continue
        for a in arcs[i]:
            c = np.array(a.get_center())
            near = min(vs, key=lambda v: np.linalg.norm(xy[v] - c))
            ctx.ok(np.linalg.norm(xy[near] - c) < 1e-6, "an outline goes around its own vertices only", edge=e, centre=c)
            ctx.ok(a.width == a.height and a.width / 2 > sizes[near] - 1e-9, "an outline keeps off the vertex", edge=e)
        centres = {min(vs, key=lambda v: np.linalg.norm(xy[v] - np.array(a.get_center()))) for a in arcs[i]}
        if len(vs) <= 2:
            ctx.ok(centres == vs, "an outline goes around all its vertices", edge=e)
        elif ctx.ok(i in lines, "an outline has straight parts", edge=e):
            hull = np.array([xy[v] for v in centres])
            for v in vs - centres:
                ctx.ok(inside(hull, xy[v]), "an outline encloses all its vertices", edge=e, vertex=v)
        w = [p.get_linewidth() for p in arcs[i] + lines.get(i, [])]
        ctx.ok(max(w) - min(w) < 1e-9, "one line width per outline")
        if base is not None:
            b = base[5][0].get_linewidth()
            ctx.ok(abs(w[0] - b * scale[i]) < 1e-6 + 1e-4 * b * scale[i], "outline widths scale as asked", got=w[0], want=b * scale[i])
    ctx.event("outline", len(es))


def inside(pts, q):
    """q in the convex hull of pts (angular gap below pi)."""
    d = pts - q
    if (np.linalg.norm(d, axis=1) < 1e-9).any():
        return True
    a = np.sort(np.arctan2(d[:, 1], d[:, 0]))
    gaps = np.append(np.diff(a), a[0] + 2 * np.pi - a[-1])
    return gaps.max() <= np.pi + 1e-6


FORCES = {"push_v_strength": 1, "push_e_strength": 2, "pull_e_strength": 0, "pull_center_strength": 3}


def options(rng, n, m, kind):
    """Random style options: keyword arguments and what they must mean."""
    kw, ex = {}, {}

    def put(name, pair):
        a, b = pair
        ex[name] = b
        if a is not None:
            kw[name] = a
    put("v_size", scal(rng, n))
    put("v_line_width", scal(rng, n))
    put("v_color", col(rng, n))
    put("e_line_width", scal(rng, m))
    put("e_color", col(rng, m))
    if rng.random() < (0.6 if n <= 20 else 0.9):
        kw["v_label"] = ex["v_label"] = some_labels(rng, "v", n)
    if rng.random() < (0.5 if n <= 20 else 0.8):
        kw["font_size"] = ex["font_size"] = rng.choice([0.05, 0.05, 0.5, 2.0, 6.0])
    if rng.random() < 0.3:
        kw["font_family"] = ex["font_family"] = rng.choice(["serif", "monospace"])
    return kw, ex


def graphs(ctx):
    import dhg
    from dhg.visualization import draw_digraph, draw_graph

    rng = ctx.rng
    kind = rng.choice(["g", "g", "d"])
    n = rng.choice([1, 2, 3, 5, 8, 14, 14, 14, 34, 14, 70]) if ctx.idx % 11 else rng.choice([34, 70, 110])
    gm = G.rand_model(rng, kind, n=n, dens=1.5 / n if n > 20 else None, extra=rng.random() < 0.1)
    g = G.build(dhg, gm)
    fn = draw_graph if kind == "g" else draw_digraph
    if g.num_e == 0:
        ctx.raises(lambda: fn(g), "an empty structure is refused")
        return
    es = [tuple(e) for e in g.e[0]]
    style = "circle" if kind == "g" and rng.random() < 0.4 else "line"
    kw, ex = options(rng, gm.n, len(es), kind)
    if gm.n > 20:
        ctx.event("many vertices")
    if style == "circle" or rng.random() < 0.3:
        kw["e_style"] = style
    efill = None
    if style == "circle" and rng.random() < 0.5:
        kw["e_fill_color"] = efill = palette(len(es), rng)
    lbl = {"v_label": ["x"] * gm.n, **({"e_style": "circle"} if style == "circle" else {})}
    base = shot(ctx, fn, g, lbl)
    S = shot(ctx, fn, g, kw)
    xy = check_vertices(ctx, gm.n, S, base, ex["v_size"], ex["v_line_width"], ex["v_color"], ["r"] * gm.n, None)
    sizes = [v[1] for v in S[1]]
    check_labels(ctx, S, xy, ex.get("v_label"), sizes, [t.get_fontsize() for t in base[4]], [ex.get("font_size", 1.0)] * gm.n, ex.get("font_family"))
    ec = ex["e_color"] or ["gray"] * len(es)
    if style == "line":
        check_lines(ctx, S, xy, es, sizes, base, ex["e_line_width"], ec, kind == "d", style=style)
    else:
        outlines(ctx, S, xy, es, sizes, base, ex["e_line_width"], ec, efill, len(set(map(str, ec))) == len(es), style=style)
    G.observe(ctx, g, gm, 0.1)
    ctx.event(fn.__name__)
    ctx.state(fn.__name__, gm.fp(), sorted(map(repr, kw.items())))
    ctx.sample(dict(draw=fn.__name__, edges=es[:8], options=repr(kw)[:300], vertices=xy.tolist()[:4]))


def bigraphs(ctx):
    import dhg
    from dhg.visualization import draw_bigraph

    rng = ctx.rng
    n = rng.choice([1, 2, 4, 7, 26])
    gm = G.rand_model(rng, "b", n=n, m=rng.choice([1, 2, 3, 9, 9, 20]), dens=1.5 / n if n > 20 else None)
    g = G.build(dhg, gm)
    if g.num_e == 0:
        ctx.raises(lambda: draw_bigraph(g), "an empty structure is refused")
        return
    nu, nv = gm.n, gm.m
    es = [(u, v + nu) for u, v in g.e[0]]
    kw, ex = {}, {}

    def put(name, pair):
        a, b = pair
        ex[name] = b
        if a is not None:
            kw[name] = a
    for s, k in (("u", nu), ("v", nv)):
        put(s + "_size", scal(rng, k))
        put(s + "_line_width", scal(rng, k))
        put(s + "_color", col(rng, k))
        if rng.random() < 0.6:
            kw[s + "_label"] = some_labels(rng, s, k)
        if rng.random() < 0.5:
            kw[s + "_font_size"] = rng.choice([0.5, 2.0])
    put("e_line_width", scal(rng, len(es)))
    put("e_color", col(rng, len(es)))
    if rng.random() < 0.3:
        kw["font_family"] = "serif"
    base = shot(ctx, draw_bigraph, g, {"u_label": ["x"] * nu, "v_label": ["x"] * nv})
    S = shot(ctx, draw_bigraph, g, kw)
    xy = check_vertices(ctx, nu + nv, S, base, ex["u_size"] + ex["v_size"], ex["u_line_width"] + ex["v_line_width"],
                        (ex["u_color"] or ["m"] * nu) + (ex["v_color"] or ["r"] * nv), None, None)
    sizes = [v[1] for v in S[1]]
    labels = kw.get("u_label", [""] * nu) + kw.get("v_label", [""] * nv)
    fs = [kw.get("u_font_size", 1.0)] * nu + [kw.get("v_font_size", 1.0)] * nv
    check_labels(ctx, S, xy, labels, sizes, [t.get_fontsize() for t in base[4]], fs, kw.get("font_family"))
    check_lines(ctx, S, xy, es, sizes, base, ex["e_line_width"], ex["e_color"] or ["gray"] * len(es), False)
    G.observe(ctx, g, gm, 0.1)
    ctx.event("draw_bigraph")
    ctx.state("bi", gm.fp(), sorted(map(repr, kw.items())))


def hypergraphs(ctx):
    import dhg
    from dhg.visualization import draw_hypergraph

    rng = ctx.rng
    n = rng.choice([1, 2, 4, 7, 12, 12, 34, 66])
    hm = H.rand_model(rng, n=n, ne=rng.choice([8, 8, 24]) if n > 20 else None)
    hg = H.build(dhg, hm)
    es = [tuple(e) for e in hg.e[0]]
    kw, ex = options(rng, hm.n, len(es), "h")
    efill = None
    if rng.random() < 0.5:
        kw["e_fill_color"] = efill = palette(len(es), rng)
    if rng.random() < 0.3:
        kw["e_style"] = "circle"
    base = shot(ctx, draw_hypergraph, hg, {"v_label": ["x"] * hm.n})
    S = shot(ctx, draw_hypergraph, hg, kw)
    xy = check_vertices(ctx, hm.n, S, base, ex["v_size"], ex["v_line_width"], ex["v_color"], ["r"] * hm.n, None)
    sizes = [v[1] for v in S[1]]
    check_labels(ctx, S, xy, ex.get("v_label"), sizes, [t.get_fontsize() for t in base[4]], [ex.get("font_size", 1.0)] * hm.n, ex.get("font_family"))
    ec = ex["e_color"] or ["gray"] * len(es)
    outlines(ctx, S, xy, es, sizes, base, ex["e_line_width"], ec, efill, len(set(map(str, ec))) == len(es))
    H.observe(ctx, hg, hm, 0.05)
    ctx.event("draw_hypergraph")
    ctx.state("h", hm.fp(), sorted(map(repr, kw.items())))


def strengths(ctx):
    """Each strength option scales just its own force; seeded drawings repeat."""
    import dhg
    from dhg.visualization import draw_bigraph, draw_digraph, draw_graph, draw_hypergraph
    from dhg.visualization.structure.simulator import Simulator as Sim

    rng = ctx.rng
    kind = ["g", "d", "b", "h"][ctx.idx % 4]
    fn = {"g": draw_graph, "d": draw_digraph, "b": draw_bigraph, "h": draw_hypergraph}[kind]
    if kind == "h":
        obj = dhg.Hypergraph(5, [(0, 1, 2), (2, 3), (3, 4, 0)])
    elif kind == "b":
        obj = dhg.BiGraph(3, 2, [(0, 0), (1, 1), (2, 0)])
    else:
        obj = {"g": dhg.Graph, "d": dhg.DiGraph}[kind](4, [(0, 1), (1, 2), (2, 3)])
    seen = []
    init = Sim.__init__

    def spy(self, nums, forces, *a, **k):
        seen.append({q: copy.deepcopy(v) for q, v in forces.items()})
        return init(self, nums, forces, *a, **k)

    names = {"pull_e_strength": (Sim.NODE_ATTRACTION, None)}
    if kind == "b":
        names.update(push_u_strength=(Sim.NODE_REPULSION, 0), push_v_strength=(Sim.NODE_REPULSION, 1),
                     pull_u_center_strength=(Sim.CENTER_GRAVITY, 0), pull_v_center_strength=(Sim.CENTER_GRAVITY, 1))
    else:
        names.update(push_v_strength=(Sim.NODE_REPULSION, None), pull_center_strength=(Sim.CENTER_GRAVITY, None))
        if kind == "h":
            names.update(push_e_strength=(Sim.EDGE_REPULSION, None))
    kw = {k: rng.choice([0.5, 2.0, 3.0]) for k in names if rng.random() < 0.6}
    pics = []
    Sim.__init__ = spy
    try:
        for args in ({}, kw, kw):
            np.random.seed(7)
            S = shot(ctx, fn, obj, dict(args))
            pics.append(np.array([v[0] for v in S[1]]))
    finally:
        Sim.__init__ = init
    ctx.need(len(seen) == 3, "one simulation per drawing", got=len(seen))
    flat = lambda f: {k: (f[a] if i is None else f[a][i]) for k, (a, i) in names.items()}
    b, c = flat(seen[0]), flat(seen[1])
    for k in names:
        ctx.ok(abs(c[k] - b[k] * kw.get(k, 1.0)) < 1e-9, "each strength scales its own force", option=k, got=c[k], default=b[k], scale=kw.get(k, 1.0))
    ctx.ok(np.array_equal(pics[1], pics[2]), "a seeded drawing repeats")
    ctx.event("strengths")
    ctx.state("strength", kind, sorted(kw.items()))


def refuse(ctx):
    import dhg
    from dhg.visualization import draw_bigraph, draw_digraph, draw_graph, draw_hypergraph

    rng = ctx.rng
    objs = {"g": dhg.Graph(3, [(0, 1), (1, 2)]), "d": dhg.DiGraph(3, [(0, 1), (1, 2)]), "b": dhg.BiGraph(2, 3, [(0, 1), (1, 2)]), "h": dhg.Hypergraph(3, [(0, 1, 2)])}
    fns = {"g": draw_graph, "d": draw_digraph, "b": draw_bigraph, "h": draw_hypergraph}
    for k, fn in fns.items():
        for j, o in objs.items():
            if j != k and not (k == "g" and isinstance(o, dhg.Graph)):
                ctx.raises(lambda: fn(o), "a structure of another kind is refused", drawer=fn.__name__, given=j)
        ctx.raises(lambda: fn(objs[k], e_style="curve"), "an unknown edge style is refused")
        ctx.raises(lambda: fn(objs[k], v_size=[1.0] * 7), "sizes of the wrong number are refused")
        ctx.raises(lambda: fn(objs[k], e_line_width=[1.0] * 7), "widths of the wrong number are refused")
    close_all()
    ctx.event("refused")
    ctx.state("refuse", ctx.idx)


def simulator(ctx):
    """One step of the force simulation equals its definition, and the forces point the right way."""
    from dhg.visualization.structure.simulator import Simulator as Sim

    rng = ctx.rng
    n, m = rng.randint(2, 8), rng.randint(1, 6)
    two = rng.random() < 0.4
    P = np.array([[rng.uniform(-5, 5) for _ in range(2)] for _ in range(n)])
    Hm = np.zeros((n, m))
    for j in range(m):
        for v in rng.sample(range(n), rng.randint(1, n)):
            Hm[v, j] = 1
    s = {k: rng.uniform(0.001, 0.05) for k in range(4)}
    nu = rng.randint(1, n - 1) if two else n
    centers = [np.array([5, 0]), np.array([-5, 0])] if two else [np.array([0, 0])]
    rep = [s[1], s[1] * 2] if two else s[1]
    grav = [s[3], s[3] * 3] if two else s[3]
    forces = {Sim.NODE_ATTRACTION: s[0], Sim.NODE_REPULSION: rep, Sim.CENTER_GRAVITY: grav}
    er = rng.random() < 0.6
    forces[Sim.EDGE_REPULSION] = s[2] if er else None
    if len({tuple(c) for c in Hm.T}) < m:
        return
    P0, H0 = P.copy(), Hm.copy()
    out = Sim(nums=nu, forces=forces, centers=centers).simulate(P, Hm, max_iter=1)
    ctx.ok(np.array_equal(P, P0) and np.array_equal(Hm, H0), "the initial positions are kept")
    E = (Hm.T @ P) / Hm.sum(0)[:, None]
    F = np.zeros_like(P)
    unit = lambda d: d / max(np.linalg.norm(d), 1e-300)
    for v in range(n):
        for j in range(m):
            d = E[j] - P[v]
            if Hm[v, j] and np.linalg.norm(d) > 1e-5:
                F[v] += s[0] * (np.linalg.norm(d) - 0.1) * unit(d)
        for u in range(n):
            if u != v:
                d = P[v] - P[u]
                F[v] += (rep[0 if v < nu else 1] if two else rep) / (d @ d) * unit(d)
        if er:
            for j in range(m):
                if Hm[v, j]:
                    for k in range(m):
                        d = E[j] - E[k]
                        if k != j and d @ d > 1e-12:
                            F[v] += s[2] / (d @ d) * unit(d)
        i = (0 if v < nu else 1) if two else 0
        F[v] += (grav[i] if two else grav) * (centers[i] - P[v])
    want = P0 + np.clip(F, -0.1, 0.1) * 2.0
    ctx.ok(np.allclose(out, want, atol=1e-4), "one simulation step applies attraction, repulsion and gravity", got=out.tolist(), want=want.tolist(), H=Hm.tolist(), two=two)
    ctx.event("simulation step")
    ctx.state("sim", P0.tolist(), Hm.tolist())


SCENARIOS = [("graphs", graphs, 44, 700), ("bigraphs", bigraphs, 18, 300), ("hypergraphs", hypergraphs, 26, 400), ("strengths", strengths, 8, 80),
             ("refuse", refuse, 1, 5), ("simulator", simulator, 150, 4000)]
REQUIRED_EVENTS = {"draw_graph": 10, "draw_digraph": 3, "draw_bigraph": 8, "draw_hypergraph": 15, "outline": 20, "strengths": 5, "refused": 1, "simulation step": 60,
                   "arrow head": 3}
ASSUMPTIONS = ["matplotlib's Agg backend; the artists of the figure are taken for the picture", "self-loops are not drawn in the line style"]
