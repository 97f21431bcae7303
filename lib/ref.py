"""Oracles written from the mathematics alone (float64 numpy / plain Python)."""
import numpy as np

TOL = 2e-4


def dn(t):
    """A torch (sparse or dense) tensor as float64 numpy."""
    if hasattr(t, "detach"):
        t = t.detach()
        if t.is_sparse:
            t = t.to_dense()
        return t.cpu().double().numpy()
    return np.asarray(t, dtype=np.float64)


def close(a, b, tol=TOL, mag=0.0):
    """Equal up to float32 rounding; ``mag`` is the sum of the absolute values of the terms that were added up (they may cancel)."""
    a, b = dn(a), dn(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return False
    m = np.maximum(np.abs(a), np.abs(b))
    return bool((np.abs(a - b) <= tol * (min(1.0, m.max()) + m) + 2e-5 + 4e-6 * mag).all())


def diff(a, b):
    a, b = dn(a), dn(b)
    if a.shape != b.shape:
        return "shape %s vs %s" % (a.shape, b.shape)
    return "max |d|=%g" % (np.nanmax(np.abs(a - b)) if a.size else 0)


def inv(d, p):
    """Elementwise d**p with 0 for zero entries."""
    d = np.asarray(d, dtype=np.float64)
    out = np.zeros_like(d)
    out[d > 0] = d[d > 0] ** p
    return out


def merge(op, old, new):
    return {"mean": (old + new) / 2, "sum": old + new, "max": max(old, new)}[op]


def row_softmax(P, mask):
    """Softmax over the stored (mask) entries of each row; empty rows are zero."""
    P = np.where(mask, P, -np.inf)
    out = np.zeros_like(P)
    for i in range(P.shape[0]):
        if mask[i].any():
            r = P[i] - P[i][mask[i]].max()
            e = np.where(mask[i], np.exp(np.where(mask[i], r, 0.0)), 0.0)
            out[i] = e / e.sum()
    return out


def agg(P, mask, X, how):
    """Reference aggregation of X with weighted connections P (rows receive)."""
    P, X = np.asarray(P, float), np.asarray(X, float)
    if how == "sum":
        return P @ X
    if how == "mean":
        return inv(P.sum(1), -1.0)[:, None] * (P @ X)
    if how == "softmax_then_sum":       # the weights are stored in float32
        return row_softmax(P.astype(np.float32).astype(float), mask) @ X
    raise KeyError(how)


def signed_agg(W, mask, X, how):
    """Aggregation with explicit weights of either sign: value, magnitude of the terms, rows whose divisor does not cancel."""
    W, X = np.asarray(W, float), np.asarray(X, float)
    all_rows = np.ones(len(W), bool)
    if how == "softmax_then_sum":
        return agg(W, mask, X, how), agg(W, mask, np.abs(X), how), all_rows
    if how == "sum":
        return W @ X, np.abs(W) @ np.abs(X), all_rows
    s, a = W.sum(1), np.abs(W).sum(1)
    ok = np.abs(s) >= 0.2 * a
    d = np.where(ok & (a > 0), s, 1.0)[:, None]
    return (W @ X) / d, (np.abs(W) @ np.abs(X)) / np.abs(d), ok


def signed_w(rng, n):
    """Explicit weights of either sign, now and then with an exponential that overflows, now and then all negative."""
    top = 3 if rng.random() < 0.8 else 120
    neg = rng.choice([0.3, 0.5, 0.9, 1.0])
    return np.array([rng.uniform(0.05, top) * (-1 if rng.random() < neg else 1) for _ in range(n)])


def weight_grad(P, mask, X, R, how):
    """d <R, agg(P, X)> / d P, zero outside the mask."""
    G = R @ X.T
    if how == "sum":
        g = G
    else:
        base = (R * agg(P, mask, X, how)).sum(1, keepdims=True)
        g = (inv(P.sum(1), -1.0)[:, None] if how == "mean" else row_softmax(P, mask)) * (G - base)
    return np.where(mask, g, 0.0)


def rdense(rng, *shape, lo=-2.0, hi=2.0):
    n = int(np.prod(shape)) if shape else 1
    return np.array([rng.uniform(lo, hi) for _ in range(n)]).reshape(shape)


def cols(rng, top=3):
    """Number of feature columns: mostly few, now and then many."""
    return rng.choice([17, 65, 129, 130, 257, 300, 700, 1100]) if rng.random() < 0.05 else rng.randint(1, top)


def strided(rng, t):
    """The same values, now and then laid out differently in memory."""
    import torch

    r = rng.random()
    if r < 0.1:
        return t.t().contiguous().t()
    if r < 0.2:
        return torch.stack([t, t + 1], dim=2)[:, :, 0]
    return t


def pick_w(rng):
    r = rng.random()
    if r < 0.03:
        return rng.choice([0, 0.0])           # still an edge
    if r < 0.25:
        return rng.choice([1, 2, 3])          # an int weight is legal
    if r < 0.55:
        return rng.choice([0.5, 0.25, 1.5, 2.5, 1.0])
    if r < 0.62:
        return rng.choice([1e-3, 1e-6, 50.0, 200.0, 3e4])
    return rng.uniform(0.1, 5.0)


def multiset(pairs, nd=4):
    """Sorted list for comparing weighted edge collections irrespective of order."""
    return sorted((k, round(float(w), nd)) for k, w in pairs)


def same_weighted(a, b, tol=TOL):
    """Two weighted multisets [(key, weight)] agree."""
    a, b = sorted((k, float(w)) for k, w in a), sorted((k, float(w)) for k, w in b)
    if len(a) != len(b):
        return False
    return all(x[0] == y[0] and abs(x[1] - y[1]) <= tol * (1 + abs(y[1])) for x, y in zip(a, b))


def kl(a, p):
    """Kullback-Leibler divergence of Bernoulli(a) from Bernoulli(p)."""
    if a == p:
        return 0.0
    if p <= 0 or p >= 1:
        return float("inf")
    r = 0.0
    if a > 0:
        r += a * np.log(a / p)
    if a < 1:
        r += (1 - a) * np.log((1 - a) / (1 - p))
    return float(r)


def kl_bound(k, n, p):
    """Is k of n consistent with probability p?  (Chernoff: wrongly denied with probability < 3e-14)"""
    return n == 0 or n * kl(k / n, p) < 32


def lagged(x, p):
    """The lags at which the 0/1 outcomes ``x`` (each 1 with probability ``p``) agree more or less often than independent ones do.

    Only disjoint pairs are counted, so that the counts are binomial; a sound sequence is blamed with probability < 1e-9.
    """
    x = np.asarray(x, dtype=bool)
    N, q, out = len(x), p * p + (1 - p) * (1 - p), []
    for d in range(1, min(N - 60, 4000)):
        i = np.arange(N - d)
        i = i[(i // d) % 2 == 0]
        n = len(i)
        if n >= 60:
            k = int((x[i] == x[i + d]).sum())
            if n * kl(k / n, q) >= 34:
                out.append((d, k, n))
    return out
