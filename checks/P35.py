"""Hyperedge outlines are closed tangent curves around exactly their vertices, kept apart from each other."""
import math

import numpy as np

RULE = "one state per distinct (positions, sizes, hyperedges) outlined, or geometric query"


def geometry(ctx):
    from dhg.visualization.structure import geometry as g

    rng = ctx.rng
    tau = 2 * math.pi
    for _ in range(20):
        x, y = [rng.choice([0.0, 1.0, -1.0, rng.uniform(-5, 5), rng.uniform(-1e-3, 1e-3), rng.uniform(-1e4, 1e4)]) for _ in range(2)]
        if x == 0 and y == 0:
            continue
        a = g.radian_from_atan(x, y)
        ctx.ok(-1e-12 <= a < tau + 1e-12 and abs(math.cos(a) * math.hypot(x, y) - x) < 1e-6 * (1 + abs(x) + abs(y)) and abs(math.sin(a) * math.hypot(x, y) - y) < 1e-6 * (1 + abs(x) + abs(y)),
               "the angle of a vector, in [0, 2 pi)", x=x, y=y, got=a)
        ctx.ok(abs(g.vlen((x, y)) - math.hypot(x, y)) < 1e-9 * (1 + math.hypot(x, y)), "the length of a vector", x=x, y=y)
        r, t, p = rng.uniform(0, 5), rng.uniform(-7, 7), np.array([rng.uniform(-2, 2), rng.uniform(-2, 2)])
        p0 = p.copy()
        q = g.polar_position(r, t, p)
        ctx.ok(np.allclose(q, p0 + r * np.array([math.cos(t), math.sin(t)])) and np.array_equal(p, p0), "a polar position", r=r, theta=t)
        ctx.ok(abs(g.rad_2_deg(t) - math.degrees(t)) < 1e-9, "degrees")
        # the outer common tangent of two circles on the x axis touches both
        r1, r2 = rng.uniform(0.1, 2), rng.choice([None, rng.uniform(0.1, 2)])
        r2 = r1 if r2 is None else r2
        d = abs(r1 - r2) + rng.uniform(0.01, 5)
        al = g.common_tangent_radian(r1, r2, d)
        n = np.array([math.cos(al), math.sin(al)])
        a, b = r1 * n, np.array([d, 0]) + r2 * n
        ctx.ok(abs((b - a) @ n) < 1e-6 and 0 <= al <= math.pi, "the common tangent touches both circles", r1=r1, r2=r2, d=d, got=al)
        ctx.event("geometry")
        ctx.state("geo", x, y, r1, r2, d)


def outline(ctx):
    import matplotlib.pyplot as plt
    from dhg.visualization.structure.utils import draw_circle_edge
    from matplotlib.patches import Arc

    rng = ctx.rng
    many = rng.random() < 0.25
    n = rng.randint(8, 16) if many else rng.randint(1, 9)
    while True:
        P = np.array([[rng.uniform(0.1, 0.9), rng.uniform(0.1, 0.9)] for _ in range(n)])
        d = np.linalg.norm(P[:, None] - P[None], axis=2) + np.eye(n)
        if d.min() > 0.03:
            break
    base = rng.choice([0.002, 0.004])
    sizes = [base] * n if rng.random() < 0.5 else [base * rng.uniform(0.5, 1.5) for _ in range(n)]
    es = []
    for _ in range(rng.choice([17, 24, 40]) if many else rng.randint(1, 6)):
        e = tuple(rng.sample(range(n), rng.randint(1, n)))
        if rng.random() < 0.8 or not es:
            es.append(e)
        else:
            es.append(tuple(reversed(rng.choice(es))))      # the same hyperedge again (another group)
    col = [(0.01 * (i + 1), 0.5, 0.25) for i in range(len(es))]
    fill = [(0.5, 0.01 * (i + 1), 0.75) for i in range(len(es))]
    lw = [0.3 + 0.1 * i for i in range(len(es))]
    fig, ax = plt.subplots()
    P0, s0, e0 = P.copy(), list(sizes), list(es)
    try:
        draw_circle_edge(ax, P, sizes, es, col, fill, lw)
        patches = list(ax.patches)
    finally:
        plt.close(fig)
    ctx.ok(np.array_equal(P, P0) and sizes == s0 and es == e0, "positions, sizes and hyperedges are kept")
    got = {i: ([], []) for i in range(len(es))}
    for p in patches:
        i = round(p.get_edgecolor()[0] * 100) - 1
        ctx.need(i in got, "an outline has its hyperedge's colour", colour=p.get_edgecolor())
        ctx.ok(abs(p.get_linewidth() - lw[i]) < 1e-9, "an outline has its hyperedge's line width")
        if isinstance(p, Arc):
            got[i][0].append(p)
        else:
            ctx.ok(round(p.get_facecolor()[1] * 100) - 1 == i, "an outline has its hyperedge's fill colour")
            got[i][1].append(p)
    radii = {}
    for i, e in enumerate(es):
        arcs, paths = got[i]
        info = dict(edge=e, positions=P.tolist(), sizes=sizes, edges=es)
        segs = []
        for p in paths:
            v, c = p.get_path().vertices, p.get_path().codes
            segs += [(v[k], v[k + 1]) for k in range(0, len(v) - 1, 2)]
            ctx.ok(list(c) == [1, 2] * (len(c) // 2), "an outline's straight parts are separate lines")
        A = [(np.array(a.get_center()), math.radians(a.theta1), math.radians(a.theta2), a.width / 2) for a in arcs]
        own = []
        for c, *_r in A:
            v = min(e, key=lambda u: np.linalg.norm(P[u] - c))
            ctx.ok(np.linalg.norm(P[v] - c) < 1e-9, "arcs are centred at the hyperedge's vertices", **info)
            own.append(v)
        ctx.ok(len(set(own)) == len(own) > 0, "one arc per vertex of the outline", own=own, **info)
        for v, (c, t1, t2, r) in zip(own, A):
            ctx.ok(r > sizes[v], "the outline keeps off the vertex", **info)
            radii.setdefault(v, []).append((r, len(e), i))
        if len(e) == 1:
            ctx.ok(not segs and len(A) == 1 and abs((A[0][2] - A[0][1]) - 2 * math.pi) < 1e-9, "a single vertex is encircled", **info)
            continue
        ctx.ok(len(segs) == len(A), "as many lines as arcs", **info)
        # the curve is closed: every arc end meets exactly one line end
        ends = [x for s in segs for x in s]
        aends = [c + r * np.array([math.cos(t), math.sin(t)]) for c, t1, t2, r in A for t in (t1, t2)]
        tight = all(abs(A[a][3] - A[b][3]) < 0.9 * np.linalg.norm(A[a][0] - A[b][0]) for a in range(len(A)) for b in range(a))
        if len(ends) == len(aends):
            used = set()
            for x in aends:
                k = min((k for k in range(len(ends)) if k not in used), key=lambda k: np.linalg.norm(ends[k] - x))
                used.add(k)
                ctx.ok(np.linalg.norm(ends[k] - x) < 1e-6, "arcs and lines join to a closed curve", gap=np.linalg.norm(ends[k] - x), **info)
        if not tight or _flat(A):
            continue
        # arcs are drawn counter-clockwise on the outer side, and together turn once
        turn = sum((t2 - t1) % (2 * math.pi) for _c, t1, t2, _r in A)
        ctx.ok(abs(turn - 2 * math.pi) < 1e-6, "the arcs turn once around the outline", turn=turn, **info)
        mid = P[list(e)].mean(0)
        for a, b in segs:
            u = (b - a) / np.linalg.norm(b - a)
            w = np.array([-u[1], u[0]])
            if (mid - a) @ w < 0:
                w = -w
            # tangent to two of the circles
            touch = sum(1 for c, _1, _2, r in A if abs((c - a) @ w - r) < 1e-6)
            ctx.ok(touch >= 2, "lines are tangent to the circles of their two vertices", touch=touch, **info)
            ctx.ok(all((P[v] - a) @ w > -max(r for *_x, r in A) for v in e), "the outline encloses all its vertices", **info)
            ctx.ok(all(np.linalg.norm(P[v] - a) > sizes[v] for v in e), "the outline keeps off the vertices")
        hull = [v for v in e if v in own]
        for v in set(e) - set(own):
            ctx.ok(_inside(np.array([P[u] for u in hull]), P[v]), "a vertex without arc lies inside", vertex=v, **info)
        ctx.event("outline of %s" % (len(e) if len(e) < 4 else "4+"))
    # outlines that share a vertex keep apart there, smaller hyperedges further in
    for v, rs in radii.items():
        rs.sort()
        for (r1, k1, i1), (r2, k2, i2) in zip(rs, rs[1:]):
            ctx.ok(r2 - r1 > 1e-9, "outlines at a shared vertex keep apart", vertex=v, radii=rs)
            ctx.ok(k1 <= k2, "smaller hyperedges are outlined further in", vertex=v, radii=rs)
            ctx.event("shared vertex")
    ctx.event("drawing")
    if many:
        ctx.event("many hyperedges")
    ctx.state("outline", P.tolist(), sizes, es)
    ctx.sample(dict(edges=es, positions=P.tolist()[:3], radii={v: [round(r[0], 5) for r in rs] for v, rs in list(radii.items())[:3]}))


def _flat(A):
    """Is a corner so flat that its circle does not reach the common tangent of its neighbours' circles?"""
    if len(A) < 3:
        return False
    C = np.array([a[0] for a in A])
    m = C.mean(0)
    order = sorted(range(len(A)), key=lambda k: math.atan2(*(C[k] - m)[::-1]))
    for i in range(len(order)):
        a, b, c = order[i - 1], order[i], order[(i + 1) % len(order)]
        u, w = C[b] - C[a], C[c] - C[b]
        turn = math.atan2(u[0] * w[1] - u[1] * w[0], u @ w)
        du, dw = np.linalg.norm(u), np.linalg.norm(w)
        if turn < math.asin(min(1, abs(A[a][3] - A[b][3]) / du)) + math.asin(min(1, abs(A[c][3] - A[b][3]) / dw)) + 1e-3:
            return True
    return False


def _inside(pts, q):
    d = pts - q
    if (np.linalg.norm(d, axis=1) < 1e-9).any():
        return True
    a = np.sort(np.arctan2(d[:, 1], d[:, 0]))
    return np.append(np.diff(a), a[0] + 2 * np.pi - a[-1]).max() <= np.pi + 1e-6


def incidence(ctx):
    from dhg.visualization.structure.utils import edge_list_to_incidence_matrix

    rng = ctx.rng
    n = rng.randint(1, 9)
    es = [tuple(rng.sample(range(n), rng.randint(1, n))) for _ in range(rng.randint(1, 7))]
    M = edge_list_to_incidence_matrix(n, list(es))
    ctx.ok(M.shape == (n, len(es)) and all(bool(M[v, j]) == (v in e) for j, e in enumerate(es) for v in range(n)) and set(np.unique(M)) <= {0, 1},
           "the layout's incidence matrix has ones exactly at the vertices of the edges", es=es)
    ctx.event("incidence")
    ctx.state("inc", n, es)


SCENARIOS = [("geometry", geometry, 100, 2000), ("outline", outline, 250, 4000), ("incidence", incidence, 60, 1000)]
REQUIRED_EVENTS = {"geometry": 1000, "drawing": 150, "many hyperedges": 30, "shared vertex": 100, "outline of 2": 20, "outline of 3": 20, "outline of 4+": 40}
ASSUMPTIONS = ["no two vertices coincide, no three vertices of a hyperedge are exactly collinear", "tangency is judged where no vertex circle nearly contains another and no corner is so flat that its circle does not reach its neighbours' common tangent (the outline follows the hull of the centres)"]
