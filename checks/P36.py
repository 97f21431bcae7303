"""Feature drawings: projection into the Poincare ball, and the points that the figures show."""
import math

import numpy as np

RULE = "one state per distinct (features, labels, drawing option)"
C = 2.0
CMAPS = ["viridis", "plasma", "coolwarm"]


def features(rng, n, d, kind):
    r = np.random.RandomState(rng.randrange(2 ** 31))
    if kind == "clusters":
        lab = np.arange(n) % 3
        cen = np.zeros((3, d))
        cen[0, 0], cen[1, 1], cen[2, 2 % d] = 20, 20, (20 if d > 2 else -20)
        X = cen[lab] + 0.05 * r.randn(n, d) + (-8 if d == 2 else 0)
        return X, lab
    if d >= 200:      # a few strong directions, each on columns of its own
        W = np.zeros((6, d))
        at = r.permutation(d)[:18]
        for i in range(6):
            W[i, at[3 * i:3 * i + 3]] = [9, 6.5, 4.5, 3, 1.5, 1][i] * np.array([1, 0.7, 0.5])
        X = r.randn(n, 6) @ W + 0.01 * r.randn(n, d)
        X[:, at[-1]] += 12
    else:
        X = r.randn(n, d) * (1 + 3 * r.rand(d)) + 2 * r.randn(d)
    if kind == "nonneg":
        X = np.abs(X) + 0.01
    if kind == "float32":
        X = X.astype(np.float32)
    if kind == "large":
        X = X * 1e4
    return X, r.randint(0, 4, n)


def tangent(Y):
    """Inverse of the exponential map at the origin."""
    n = np.linalg.norm(Y, axis=1, keepdims=True)
    s = math.sqrt(C)
    return np.where(n > 1e-12, np.arctanh(np.minimum(s * n, 1 - 1e-12)) / (s * np.maximum(n, 1e-300)) * Y, 0)


def reference(X, dim):
    """Normalised rows, principal components, affinely to [-2, 2] per axis, exponential map; None if ill-conditioned."""
    U = X.astype(np.float64)
    U = U / np.linalg.norm(U, axis=1, keepdims=True)
    Z = U - U.mean(0)
    _, s, vt = np.linalg.svd(Z, full_matrices=False)
    s = np.append(s, 0)
    if len(s) <= dim or any(s[i] - s[i + 1] < 1e-2 * s[0] for i in range(dim)) or s[dim - 1] < 1e-2:
        return None
    T = Z @ vt[:dim].T
    return (T - T.min(0)) / (T.max(0) - T.min(0)) * 4 - 2


def flip_equal(a, b, tol):
    """Equal up to the sign of each axis."""
    return all(min(np.abs(a[:, k] - b[:, k]).max(), np.abs(a[:, k] + b[:, k]).max()) < tol for k in range(a.shape[1]))


def in_ball(ctx, Y, n, dim, **info):
    ctx.need(isinstance(Y, np.ndarray) and Y.shape == (n, dim), "one point of the asked dimension per row", got=getattr(Y, "shape", None), **info)
    ctx.ok(bool(np.isfinite(Y).all()), "finite coordinates", **info)
    ctx.ok(float(np.linalg.norm(Y, axis=1).max()) <= (1 - 1e-5) / math.sqrt(C) + 1e-7, "every point lies inside the ball", norm=np.linalg.norm(Y, axis=1).max(), **info)
    T = tangent(Y.astype(np.float64))
    ctx.ok(np.allclose(T.min(0), -2, atol=0.02) and np.allclose(T.max(0), 2, atol=0.02), "each tangent axis spans [-2, 2]", lo=T.min(0), hi=T.max(0), **info)
    return T


def project(ctx):
    from dhg.visualization import project_to_poincare_ball as f

    rng = ctx.rng
    kind = rng.choice(["plain", "nonneg", "float32", "large", "clusters"])
    n, d, dim = rng.choice([5, 8, 20, 60, 130, 400, 1040]), rng.choice([3, 4, 7, 16, 70, 200, 600]), rng.choice([2, 3])
    X, _ = features(rng, n, d, kind)
    X0 = X.copy()
    Y = f(X, dim=dim, reduce_method="pca") if rng.random() < 0.6 else (f(X, dim) if dim == 3 or rng.random() < 0.5 else f(X))
    ctx.ok(np.array_equal(X, X0), "the features are unchanged")
    T = in_ball(ctx, Y, n, dim, kind=kind)
    R = reference(X, dim)
    if R is not None:
        tol = 2e-2 if kind == "float32" else 2e-3
        ctx.ok(flip_equal(T, R, tol), "the projection is that of the principal components of the directions", got=T[:3], want=R[:3], kind=kind)
        s = np.array([[rng.choice([0.01, 0.5, 3.0, 40.0])] for _ in range(n)])
        ctx.ok(flip_equal(tangent(f((X * s).astype(X.dtype), dim).astype(float)), T, tol), "the length of a row does not matter", kind=kind)
        p = list(range(n))
        rng.shuffle(p)
        ctx.ok(flip_equal(tangent(f(X[p], dim).astype(float)), T[p], tol), "the order of the rows does not matter", kind=kind)
        ctx.event("compared projection")
    ctx.event("projection")
    ctx.state("proj", X.tobytes(), dim)
    ctx.sample(dict(kind=kind, n=n, d=d, dim=dim, got=Y[:2].tolist()))


def close_all():
    import matplotlib.pyplot as plt

    plt.close("all")


def scatter_of(ctx, dim):
    """(coordinates, values, colour map, facecolours) of the only scatter of the only figure."""
    import matplotlib.pyplot as plt
    from matplotlib.collections import PathCollection

    ctx.need(len(plt.get_fignums()) == 1, "one figure", got=len(plt.get_fignums()))
    fig = plt.figure(plt.get_fignums()[0])
    ctx.need(len(fig.axes) == 1, "one set of axes", got=len(fig.axes))
    ax = fig.axes[0]
    sc = [c for c in ax.collections if isinstance(c, PathCollection)]
    ctx.need(len(sc) == 1, "one cloud of points", got=len(sc))
    sc = sc[0]
    if dim == 3:
        ctx.need(hasattr(ax, "get_zlim"), "three axes")
        xy = np.stack([np.asarray(a, float) for a in sc._offsets3d], 1)
    else:
        ctx.ok(not hasattr(ax, "get_zlim"), "two axes")
        xy = np.asarray(sc.get_offsets(), float)
    return fig, ax, xy, sc


def judge_cloud(ctx, ax, xy, sc, n, dim, label, cmap, lims=True):
    ctx.need(xy.shape == (n, dim), "one point per row", got=xy.shape)
    ctx.ok(np.allclose(xy.min(0), 0.1, atol=1e-4) and np.allclose(xy.max(0), 0.9, atol=1e-4), "the points fill [0.1, 0.9] on each axis", lo=xy.min(0), hi=xy.max(0))
    if lims:
        for a in "xyz"[:dim]:
            lo, hi = getattr(ax, "get_%slim" % a)()
            ctx.ok(lo < 0.1 and hi > 0.9, "all points are visible", axis=a, lim=(lo, hi))
    if label is None:
        ctx.ok(sc.get_array() is None and len({tuple(c) for c in sc.get_facecolors()}) == 1, "without labels there is one colour")
    else:
        ctx.ok(sc.get_array() is not None and np.array_equal(np.asarray(sc.get_array(), float), np.asarray(label, float)), "each point is coloured by its own label")
        ctx.ok(sc.get_cmap().name == (cmap or "viridis"), "the colour map is the given one", got=sc.get_cmap().name)


def options(rng, lab):
    kw, label, cmap = {}, None, None
    if rng.random() < 0.7:
        kw["label"] = label = lab if rng.random() < 0.5 else lab.astype(float) / 2
    if rng.random() < 0.6:
        kw["cmap"] = cmap = rng.choice(CMAPS)
    return kw, label, cmap


def poincare(ctx):
    from dhg.visualization import draw_in_poincare_ball, project_to_poincare_ball

    rng = ctx.rng
    n, d, dim = rng.choice([6, 25, 40, 150, 520, 1100]), rng.choice([4, 8]), rng.choice([2, 3])
    X, lab = features(rng, n, d, rng.choice(["plain", "nonneg", "clusters"]))
    kw, label, cmap = options(rng, lab)
    X0, l0 = X.copy(), None if label is None else label.copy()
    if dim == 3 or rng.random() < 0.5:
        kw["dim"] = dim
    if rng.random() < 0.5:
        kw["reduce_method"] = "pca"
    close_all()
    try:
        draw_in_poincare_ball(X, **kw)
        fig, ax, xy, sc = scatter_of(ctx, dim)
        judge_cloud(ctx, ax, xy, sc, n, dim, label, cmap)
        if ctx.idx % 6 == 0:
            fig.canvas.draw()
    finally:
        close_all()
    ctx.ok(np.array_equal(X, X0) and (label is None or np.array_equal(label, l0)), "features and labels are unchanged")
    Y = project_to_poincare_ball(X, dim, "pca")
    W = (Y - Y.min(0)) / (Y.max(0) - Y.min(0)) * 0.8 + 0.1
    ctx.ok(flip_equal(xy - 0.5, W - 0.5, 1e-3) , "the figure shows the projected points", got=xy[:3], want=W[:3])
    ctx.event("drawn in the ball")
    ctx.state("ball", X.tobytes(), sorted(map(str, kw)))


def animation(ctx):
    """The animations show the same points and turn once around."""
    import warnings

    from dhg.visualization import animation_of_3d_poincare_ball, project_to_poincare_ball

    rng = ctx.rng
    n = rng.choice([6, 25])
    X, lab = features(rng, n, rng.choice([4, 8]), "plain")
    kw, label, cmap = options(rng, lab)
    X0 = X.copy()
    close_all()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ani = animation_of_3d_poincare_ball(X, **kw)
            turned(ctx, ani, n, label, cmap, project_to_poincare_ball(X, 3, "pca"))
    finally:
        close_all()
    ctx.ok(np.array_equal(X, X0), "features and labels are unchanged")
    ctx.event("animation")
    ctx.state("anim", X.tobytes(), sorted(map(str, kw)))


def turned(ctx, ani, n, label, cmap, Y=None):
    from matplotlib.animation import FuncAnimation

    ctx.need(isinstance(ani, FuncAnimation), "an animation is returned")
    import matplotlib.pyplot as plt

    fig = plt.figure(plt.get_fignums()[0])
    fig.canvas.draw()
    fig, ax, xy, sc = scatter_of(ctx, 3)
    judge_cloud(ctx, ax, xy, sc, n, 3, label, cmap, lims=False)
    if label is None:
        ctx.ok(tuple(round(float(c), 3) for c in sc.get_facecolors()[0])[:3] == (1.0, 0.0, 0.0), "without labels the points are red")
    if Y is not None:
        W = (Y - Y.min(0)) / (Y.max(0) - Y.min(0)) * 0.8 + 0.1
        ctx.ok(flip_equal(xy - 0.5, W - 0.5, 1e-3), "the animation shows the projected points")
    frames = list(ani.new_frame_seq())
    seen = set()
    for i, f in enumerate(frames):
        ani._draw_frame(f) if ctx.idx % 2 and i % 30 == 0 else ani._func(f)
        seen.add((round(ax.azim) % 360, round(ax.elev)))
    ctx.ok(len(frames) == len(seen) == 360 and len({e for _, e in seen}) == 1, "the animation turns once around", frames=len(frames), seen=sorted(seen)[:4])


def tsne(ctx):
    """t-SNE variants: well-separated clusters stay together."""
    import warnings

    import dhg
    from dhg.visualization import (animation_of_3d_euclidean_space, draw_in_euclidean_space, draw_in_poincare_ball, project_to_poincare_ball)

    rng = ctx.rng
    dhg.random.set_seed(rng.randrange(1000))
    n = rng.choice([36, 48])
    which = ["euclid", "project", "ball", "euclid3", "anim"][ctx.idx % 5]
    dim = 3 if which in ("euclid3", "anim") or which != "euclid" and rng.random() < 0.3 else 2
    X, lab = features(rng, n, rng.choice([3, 6]), "clusters")
    X0 = X.copy()
    kw, label, cmap = options(rng, lab)
    close_all()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if which == "project":
                xy = project_to_poincare_ball(X, dim, "tsne")
                in_ball(ctx, xy, n, dim)
            elif which == "anim":
                ani = animation_of_3d_euclidean_space(X, **kw)
                turned(ctx, ani, n, label, cmap)
                xy = scatter_of(ctx, 3)[2]
            else:
                if dim == 3 or rng.random() < 0.5:
                    kw["dim"] = dim
                if which == "ball":
                    draw_in_poincare_ball(X, reduce_method="tsne", **kw)
                else:
                    draw_in_euclidean_space(X, **kw)
                fig, ax, xy, sc = scatter_of(ctx, dim)
                judge_cloud(ctx, ax, xy, sc, n, dim, label, cmap)
    finally:
        close_all()
    ctx.ok(np.array_equal(X, X0), "features and labels are unchanged")
    if dim == 2:
        D = np.linalg.norm(xy[:, None] - xy[None], axis=2) + 1e9 * np.eye(n)
        same = float((lab[D.argmin(1)] == lab).mean())
        # perplexity 30 spans the clusters, so only their dominance is judged
        ctx.ok(same > 0.6, "vertices of a far-off cluster stay together", share=same, which=which)
    ctx.event("tsne " + which)
    ctx.state("tsne", X.tobytes(), which, dim)


def refuse(ctx):
    from dhg.visualization import draw_in_euclidean_space, draw_in_poincare_ball, project_to_poincare_ball

    X = np.random.RandomState(ctx.rng.randrange(999)).randn(40, 5)
    for dim in (0, 1, 4, -2):
        ctx.raises(lambda: project_to_poincare_ball(X, dim), "a dimension other than two and three is refused", dim=dim)
        ctx.raises(lambda: draw_in_poincare_ball(X, dim=dim), "a dimension other than two and three is refused", dim=dim)
        ctx.raises(lambda: draw_in_euclidean_space(X, dim=dim), "a dimension other than two and three is refused", dim=dim)
    for m in ("umap", "", "PCA", None):
        ctx.raises(lambda: project_to_poincare_ball(X, 2, m), "an unknown reduction is refused", method=m)
        ctx.raises(lambda: draw_in_poincare_ball(X, reduce_method=m), "an unknown reduction is refused", method=m)
    close_all()
    ctx.event("refused")
    ctx.state("refuse", X.tobytes())


SCENARIOS = [("project", project, 150, 3000), ("poincare", poincare, 30, 400), ("animation", animation, 8, 60), ("tsne", tsne, 10, 100), ("refuse", refuse, 2, 10)]
REQUIRED_EVENTS = {"projection": 140, "compared projection": 60, "drawn in the ball": 20, "animation": 5, "refused": 1, "tsne euclid": 1, "tsne project": 1, "tsne ball": 1}
ASSUMPTIONS = ["no zero rows, no axis on which all points coincide", "t-SNE needs more than 30 samples (its default perplexity)", "matplotlib's Agg backend"]
