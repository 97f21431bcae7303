"""Plain-Python references of the metrics (lists in, floats out)."""
import math


def acc(t, p):
    return sum(a == b for a, b in zip(t, p)) / len(t)


def f1(t, p, average="macro"):
    labs = sorted(set(t) | set(p))
    sc, sup = [], []
    for c in labs:
        tp = sum(a == c and b == c for a, b in zip(t, p))
        fp = sum(a != c and b == c for a, b in zip(t, p))
        fn = sum(a == c and b != c for a, b in zip(t, p))
        sc.append(2 * tp / (2 * tp + fp + fn) if 2 * tp + fp + fn else 0.0)
        sup.append(sum(a == c for a in t))
    if average == "macro":
        return sum(sc) / len(sc)
    if average == "weighted":
        return sum(s * n for s, n in zip(sc, sup)) / sum(sup)
    if average == "micro":
        return acc(t, p)
    raise KeyError(average)


def cm(t, p):
    labs = sorted(set(t) | set(p))
    return [[sum(a == x and b == y for a, b in zip(t, p)) for y in labs] for x in labs]


def order(p):
    return sorted(range(len(p)), key=lambda i: -p[i])


def topk(n, k=None, ratio=None):
    """Acceptable cut-offs (a ratio times n that is an integer up to rounding has two)."""
    if ratio is not None:
        return sorted({math.ceil(n * ratio - 1e-9), math.ceil(n * ratio + 1e-9)})
    return [n if k is None else min(k, n)]


def hits(t, p, k):
    return [t[i] for i in order(p)][:k]


def prec(t, p, k):
    return sum(hits(t, p, k)) / k


def rec(t, p, k):
    return sum(hits(t, p, k)) / sum(t) if sum(t) else 0.0


def dcg(x):
    return sum(v / math.log2(i + 2) for i, v in enumerate(x))


def ndcg(t, p, k):
    ideal = dcg(sorted(t, reverse=True)[:k])
    return dcg(hits(t, p, k)) / ideal if ideal else 0.0


def rr(t, p, k):
    r = [1 / (i + 1) for i, v in enumerate(hits(t, p, k)) if v]
    return sum(r) / len(r) if r else 0.0


def precisions(t, p, method):
    """Precision at each hit (interpolated from the right for pascal_voc)."""
    seq = [t[i] for i in order(p)]
    out, n = [], 0
    for i, v in enumerate(seq):
        if v:
            n += 1
            out.append(n / (i + 1))
    if method == "pascal_voc":
        for i in range(len(out) - 2, -1, -1):
            out[i] = max(out[i], out[i + 1])
    return out


def ap(t, p, method="pascal_voc"):
    x = precisions(t, p, method)
    return sum(x) / len(x) if x else 0.0


def pr_curve(t, p, method="pascal_voc", n_points=11):
    """(list of acceptable precisions per point, recall coordinates)."""
    x = precisions(t, p, method)
    rec_c = [i / (n_points - 1) for i in range(n_points)] if n_points > 1 else [0.0]
    pts = []
    for r in rec_c:
        y = r * (len(x) - 1)
        pts.append(sorted({x[min(len(x) - 1, max(0, math.floor(y - 1e-9)))], x[min(len(x) - 1, math.floor(y + 1e-9))]}))
    return pts, rec_c
