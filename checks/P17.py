"""Per-class vertex splits."""
import math
from fractions import Fraction

from lib.ref import kl

RULE = "one state per distinct (labels, sizes or ratios) whose masks were checked"


def labels(rng, n):
    """Labels 0-based, 1-based or with gaps; every class non-empty."""
    kind = rng.choice(["zero", "one", "gap", "zero", "one"])
    c = rng.randint(1, min(5, n)) if n < 100 or rng.random() < 0.5 else rng.choice([11, 40, 70])
    names = {"zero": list(range(c)), "one": list(range(1, c + 1)), "gap": rng.sample([0, 1, 2, 4, 7, 9, 30] if c < 6 else range(300), c)}[kind]
    lab = names + [rng.choice(names) for _ in range(n - c)]
    rng.shuffle(lab)
    return kind, lab


def shape(rng, lab):
    import numpy as np
    import torch

    r = rng.randrange(6)
    if r == 0:
        return list(lab)
    if r == 1:
        return np.array(lab)
    if r == 2:
        return torch.tensor(lab)
    if r == 3:
        return torch.tensor(lab).view(-1, 1)
    if r == 4:
        return np.array(lab, dtype=float)
    return torch.tensor(lab, dtype=torch.int32)


def flat(x):
    return [int(v) for v in (x if isinstance(x, list) else x.reshape(-1).tolist())]


def check(ctx, masks, num_v, lab, counts, has_val):
    """counts(n) -> (train, val, test or None) for a class of n vertices."""
    import torch

    ctx.need(isinstance(masks, tuple) and len(masks) == (3 if has_val else 2), "train, (val,) test masks", got=len(masks))
    for m in masks:
        ctx.need(isinstance(m, torch.Tensor) and m.dtype == torch.bool and tuple(m.shape) == (num_v,), "boolean masks over all vertices",
                 got=(m.dtype, tuple(m.shape)))
    ctx.ok(int(sum(m.int() for m in masks).max()) <= 1, "no vertex is in two parts", masks=[m.tolist() for m in masks])
    ctx.ok(not any(bool(m[len(lab):].any()) for m in masks), "unlabelled vertices are in no part")
    for c in sorted(set(lab)):
        idx = [i for i, y in enumerate(lab) if y == c]
        got = [int(m[idx].sum()) for m in masks]
        tr, va, te = counts(len(idx))
        left = len(idx)
        want = []
        for k in [tr] + ([va] if has_val else []):
            k = [min(x, left) for x in k]
            want.append(k)
            left -= got[len(want) - 1]
        want.append([left] if te is None else [min(x, left) for x in te])
        ctx.ok(all(g in w for g, w in zip(got, want)), "every class contributes the asked number of vertices", label=c,
               size=len(idx), got=got, want=want)


def by_num(ctx):
    from dhg.utils import split_by_num

    rng = ctx.rng
    n = rng.choice([2, 3, 5, 10, 20, 60, 150, rng.choice([300, 1100, 2500])])
    kind, lab = labels(rng, n)
    arg = shape(rng, lab)
    num_v = n if rng.random() < 0.85 else n + 3
    tr = rng.choice([0, 1, 2, 5, 20, 130])
    va = rng.choice([None, 0, 1, 3, 10, 70])
    te = rng.choice([None, None, 0, 1, 4, 50, 200])
    kw = {}
    if va is not None or rng.random() < 0.3:
        kw["val_num"] = va
    if te is not None or rng.random() < 0.3:
        kw["test_num"] = te
    m = split_by_num(num_v, arg, tr, **kw)
    ctx.ok(flat(arg) == lab, "labels are not modified", got=flat(arg), want=lab)
    check(ctx, m, num_v, lab, lambda k: ([tr], [va or 0], None if te is None else [te]), bool(va))
    ctx.event("num " + kind)
    ctx.state("num", lab, tr, va, te)
    ctx.sample({"labels": lab, "train": tr, "val": va, "test": te})


def floors(n, r):
    """floor(n * r), with both neighbours when n * r is an integer up to rounding."""
    x = float(Fraction(n) * Fraction(str(r)))
    return sorted({math.floor(x - 1e-9), math.floor(x + 1e-9)} - {-1})


def by_ratio(ctx):
    from dhg.utils import split_by_ratio

    rng = ctx.rng
    n = rng.choice([2, 3, 5, 10, 20, 60, 150, rng.choice([300, 1100, 2500])])
    kind, lab = labels(rng, n)
    arg = shape(rng, lab)
    num_v = n if rng.random() < 0.85 else n + 3
    tr = rng.choice([0.1, 0.3, 0.5, 0.29, 0.8, 0.0])
    va = rng.choice([None, 0, 0.1, 0.15, 0.05])
    te = rng.choice([None, None, 0, 0.05, 0.1])
    if te is not None and rng.random() < 0.3:
        te = round(1 - tr - (va or 0), 2)
    elif te is not None and tr + (va or 0) + te > 1:
        te = 0.05
    if rng.random() < 0.08:      # sums to 1, but not in floating point
        tr, va, te = rng.choice([(0.33, 0.56, 0.11), (0.34, 0.55, 0.11), (0.55, 0.34, 0.11)])
    kw = {}
    if va is not None or rng.random() < 0.3:
        kw["val_ratio"] = va
    if te is not None or rng.random() < 0.3:
        kw["test_ratio"] = te
    m = split_by_ratio(num_v, arg, tr, **kw)
    ctx.ok(flat(arg) == lab, "labels are not modified", got=flat(arg), want=lab)
    check(ctx, m, num_v, lab, lambda k: (floors(k, tr), floors(k, va or 0), None if te is None else floors(k, te)), bool(va))
    ctx.raises(lambda: split_by_ratio(num_v, arg, 0.6, 0.5), "ratios above 1 are refused")
    ctx.raises(lambda: split_by_ratio(num_v, arg, 0.6, 0.4), "no room for a test part is refused")
    ctx.raises(lambda: split_by_ratio(num_v, arg, 0.6, 0.3, 0.3), "ratios above 1 are refused")
    ctx.raises(lambda: split_by_ratio(num_v, tuple(lab), 0.5), "labels of another type are refused")
    ctx.event("ratio " + kind)
    ctx.state("ratio", lab, tr, va, te)


def fair(ctx):
    """Within a class every vertex is equally likely to be in each part."""
    from dhg.utils import split_by_num, split_by_ratio

    rng = ctx.rng
    reps = 3000 if ctx.thorough else 1000
    n = rng.choice([8, 11, 150]) if ctx.idx < 4 else 400
    _, lab = labels(rng, n)
    if ctx.idx in (6, 7):      # classes of many vertices
        n = 2600
        lab = [0] * 1400 + [1] * 1200
        rng.shuffle(lab)
        reps = 300
    ratio = ctx.idx % 2 == 0
    tot = None
    for _ in range(reps):
        m = split_by_ratio(n, lab, 0.4, 0.3) if ratio else split_by_num(n, lab, 1 if n < 1000 else 300, 1 if n < 1000 else 250)
        ctx.need(len(m) == 3, "train, val, test masks")
        v = [x.int() for x in m]
        tot = v if tot is None else [a + b for a, b in zip(tot, v)]
    for part, t in zip(("train", "val", "test"), tot):
        for c in set(lab):
            idx = [i for i, y in enumerate(lab) if y == c]
            p = sum(int(t[i]) for i in idx) / reps / len(idx)
            for i in idx:
                ctx.ok(reps * kl(int(t[i]) / reps, p) < 32, "every vertex of a class is equally likely to be chosen", part=part,
                       vertex=i, hits=int(t[i]), mean=p * reps)
    ctx.event("fair")
    ctx.state("fair", lab, ratio)


def subsets(ctx):
    """All selections of a small class are equally likely, not only each vertex."""
    from itertools import combinations

    from dhg.utils import split_by_num, split_by_ratio

    rng = ctx.rng
    reps = 4000 if ctx.thorough else 1500
    n, k = 6, rng.choice([2, 3])
    other = rng.choice([0, 5])
    lab = [0] * n + [1] * other
    pos = list(range(n + other))
    rng.shuffle(pos)
    lab = [lab[i] for i in pos]
    mine = [i for i, y in enumerate(lab) if y == 0]
    part = ctx.idx % 2
    seen = {}
    for _ in range(reps):
        if ctx.idx % 4 < 2:
            m = split_by_num(n + other, lab, k, k)[part]
        else:
            m = split_by_ratio(n + other, lab, 0.34 if k == 2 else 0.5, 0.34 if k == 2 else 0.499999)[part] if part == 0 or k == 2 else split_by_num(n + other, lab, k, k)[part]
        got = tuple(i for i in mine if bool(m[i]))
        seen[got] = seen.get(got, 0) + 1
    want = list(combinations(mine, k))
    ctx.ok(set(seen) <= set(want), "only selections of the asked size", seen=sorted(seen)[:5])
    for c in want:
        ctx.ok(reps * kl(seen.get(c, 0) / reps, 1 / len(want)) < 32, "every selection of a class is equally likely", selection=c, hits=seen.get(c, 0),
               expected=reps / len(want), k=k)
    ctx.event("subsets")
    ctx.state("subsets", lab, k, part)


SCENARIOS = [("by num", by_num, 250, 5000), ("by ratio", by_ratio, 250, 5000), ("fair", fair, 8, 40), ("subsets", subsets, 6, 30)]
REQUIRED_EVENTS = {"num zero": 20, "num one": 20, "num gap": 10, "ratio zero": 20, "ratio one": 20, "ratio gap": 10, "fair": 4, "subsets": 3}
ASSUMPTIONS = ["a ratio times a class size that is an integer up to float rounding may be rounded to either neighbour"]
