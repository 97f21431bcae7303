"""Feature and tensor transforms of the data pipe."""
import numpy as np

from lib.ref import close, rdense

RULE = "one state per distinct (transform, input, parameters)"


def convert(ctx):
    import scipy.sparse as sp
    import torch
    from dhg.datapipe import to_bool_tensor, to_long_tensor, to_tensor

    rng = ctx.rng
    which = rng.choice(["float", "bool", "long"])
    shape = rng.choice([(1,), (5,), (3, 4), (1, 1), (4, 2), (2, 3, 2)])
    direct = ctx.idx % 20 == 3                    # many numbers that need no conversion
    if direct or rng.random() < 0.06:
        shape = rng.choice([(5000,), (1100, 9), (7, 1100), (130, 130), (300, 230), (70000,), (0,), (0, 3)] if not direct else [(5000,), (1100, 9), (300, 230), (70000,), (2, 60, 400)])
    if which == "bool":
        pool = rng.choice([[0, 0, 1, 2, -1], [0, 0, 2 ** 40, 256, -(2 ** 32)], [0.0, 0.25, -0.5, 1e-60, -1e-310, 1e300], [0.0, -0.0, 1e-9]])
        A = np.array([rng.choice(pool) for _ in range(int(np.prod(shape)))]).reshape(shape)
    elif which == "long":
        A = np.array([rng.choice([0, 1, 2, -7, 123456789, 2 ** 40, 2 ** 53 + 1, -(2 ** 62) - 1]) for _ in range(int(np.prod(shape)))]).reshape(shape)
    else:
        A = rdense(rng, *shape, lo=-5, hi=5).round(3)
        if A.size:
            A[tuple(0 for _ in shape)] = 0
    src = rng.choice(["list", "array", "tensor"] + (["csr", "coo"] if which == "float" and len(shape) == 2 else []))
    if which == "long" and rng.random() < 0.3:
        A = (A % 1000).astype(float) + rng.choice([0.0, 0.25])
    if which == "bool" and rng.random() < 0.3:
        A = A.astype(bool)
    if direct:
        src = rng.choice(["array", "array", "tensor"])      # the very type of the result
        A = A.astype({"float": np.float32, "bool": bool, "long": np.int64}[which])
    elif which != "bool" and src != "list" and rng.random() < 0.35:      # other number types
        A = (A % 100).astype(rng.choice([np.int8, np.uint8, np.int16, np.int32, np.int64, np.float32, np.float64, bool]
                                        + ([np.float16] if src not in ("csr", "coo") else [])))
        ctx.event("other type")
    if src == "list" and 0 in shape:
        shape, A = (0,), A.reshape(0)
    if which == "bool" and src == "list":
        A = np.where(np.abs(A.astype(float)) < 1e-30, 0, A)        # torch.tensor(list) is single precision
        A = np.clip(A, -1e30, 1e30) if A.dtype.kind == "f" else A
    arg = {"list": lambda: A.tolist(), "array": lambda: A.copy(), "tensor": lambda: torch.tensor(A), "csr": lambda: sp.csr_matrix(A),
           "coo": lambda: sp.coo_matrix(A)}[src]()
    lay = rng.choice(["plain", "plain", "plain", "strided", "transposed", "grad"])
    if src in ("array", "tensor") and len(shape) > 1:
        if lay == "strided":
            wide = np.repeat(A, 2, axis=1)
            arg = wide[:, ::2] if src == "array" else torch.tensor(wide)[:, ::2]
        elif lay == "transposed":
            arg = A.swapaxes(0, 1).copy().swapaxes(0, 1) if src == "array" else torch.tensor(A.swapaxes(0, 1).copy()).transpose(0, 1)
        if lay != "plain":
            ctx.event("layout")
    if src == "coo" and A.dtype.kind != "b" and np.abs(A.astype(float)).max(initial=0) < 50 and rng.random() < 0.3:      # entries given in two halves
        r, c = np.nonzero(A)
        arg = sp.coo_matrix((np.concatenate([A[r, c], 0 * A[r, c]]), (np.concatenate([r, r]), np.concatenate([c, c]))), shape=A.shape)
    if src == "csr" and A.dtype.kind != "b" and np.abs(A.astype(float)).max(initial=0) < 50 and rng.random() < 0.4:      # the same, row by row
        c = sp.csr_matrix(A)
        arg = sp.csr_matrix((np.stack([c.data, 0 * c.data], 1).reshape(-1), np.repeat(c.indices, 2), 2 * c.indptr), shape=A.shape)
        ctx.event("entry stored twice")
    f = {"float": to_tensor, "bool": to_bool_tensor, "long": to_long_tensor}[which]
    t = f(arg)
    dt = {"float": torch.float32, "bool": torch.bool, "long": torch.int64}[which]
    ctx.need(isinstance(t, torch.Tensor) and t.dtype == dt and tuple(t.shape) == shape, "a dense tensor of the asked type and shape", got=(t.dtype, tuple(t.shape)),
             which=which, source=src)
    want = {"float": A.astype(np.float32), "bool": A != 0, "long": np.trunc(A).astype(np.int64)}[which]
    ctx.ok(np.array_equal(t.numpy(), want), "values are kept", which=which, source=src, got=t.tolist(), want=want.tolist())
    back = arg.toarray() if src in ("csr", "coo") else np.array(arg)
    ctx.ok(np.array_equal(back, A), "the input is not modified")
    if src in ("array", "tensor") and A.size and A.dtype.kind != "b" and which != "bool":      # edited in place and converted again
        arg[tuple(0 for _ in shape)] += 1
        A = A.copy()
        A[tuple(0 for _ in shape)] += 1
        want = {"float": A.astype(np.float32), "long": np.trunc(A).astype(np.int64)}[which]
        ctx.ok(np.array_equal(f(arg).numpy(), want), "converted again after an edit in place", which=which, source=src)
    t += 1 if which != "bool" else True
    back = arg.toarray() if src in ("csr", "coo") else np.array(arg)
    ctx.ok(np.array_equal(back, A), "the result does not share memory with the input", which=which, source=src)
    ctx.event("to " + which)
    ctx.event("from " + src)
    ctx.state(which, src, A.tolist())


def norm(ctx):
    import torch
    from dhg.datapipe import norm_ft

    rng = ctx.rng
    n, d = rng.randint(1, 8), rng.randint(1, 6)
    if rng.random() < 0.08:
        n, d = rng.choice([(1100, 3), (2, 1500), (130, 70)])
    A = rdense(rng, n, d, lo=-4, hi=4)
    for i in range(n):
        if rng.random() < 0.3:
            A[i] = 0
    if rng.random() < 0.3:
        A *= rng.choice([1e-4, 1e4, 1e-10, 1e-8, 1e9])
    elif rng.random() < 0.4:
        A[rng.randrange(n)] *= rng.choice([1e-10, 1e-7, 1e7])      # rows of very different norms side by side
    o = rng.choice([None, 1, 2, 3, float("inf"), 0.5, 1.0])
    one = rng.random() < 0.3
    if one:
        A = A[0] if n * d < 1000 or rng.random() < 0.5 else A.reshape(-1)
    X = torch.tensor(A, dtype=rng.choice([torch.float32, torch.float64]))
    if not one and rng.random() < 0.3:
        X = X.T.contiguous().T if rng.random() < 0.5 else X.repeat_interleave(2, 1)[:, ::2]
        ctx.event("layout")
    if rng.random() < 0.5:      # the same tensor seen before with other values
        norm_ft(X, ord=o)
        old = X.clone()
        X.mul_(0).add_(1)
        norm_ft(X, ord=o)
        X.copy_(old)
    keep = X.clone()
    Y = norm_ft(X) if o is None and rng.random() < 0.5 else norm_ft(X, ord=o)
    R = np.atleast_2d(keep.double().numpy())
    p = 2 if o is None else o
    s = np.abs(R).max(1) if p == float("inf") else (np.abs(R) ** p).sum(1) ** (1.0 / p)
    want = np.where(s[:, None] > 0, R / np.where(s > 0, s, 1)[:, None], 0)
    ctx.ok(Y.shape == X.shape and close(np.atleast_2d(Y.double().numpy()), want, 1e-9 if X.dtype == torch.float64 else 2e-5), "every row has norm one, zero rows stay zero", ord=o, got=Y.tolist(),
           want=want.tolist())
    ctx.ok(torch.equal(X, keep), "the input is not modified")
    ctx.raises(lambda: norm_ft(torch.zeros(2, 2, 2)), "3-D features are refused")
    ctx.event("norm 1-D" if one else "norm 2-D")
    ctx.state("norm", A.tolist(), o)


def scale(ctx):
    import torch
    from dhg.datapipe import min_max_scaler

    rng = ctx.rng
    shape = rng.choice([(5,), (3, 4), (2, 2, 2), (2,)]) if rng.random() < 0.9 else rng.choice([(5000,), (1100, 4), (3, 1100), (70000,), (70000, 1), (2, 40000), (300, 300)])
    A = rdense(rng, *shape, lo=-10, hi=10) * rng.choice([1, 1, 1, 1e-4, 1e5]) + rng.choice([0, 0, 0, 30, -30])
    lo = rng.choice([0, -1, 0.5, -20, 3])
    hi = lo + rng.choice([1, 0.1, 7, 100])
    X = torch.tensor(A, dtype=torch.float64 if rng.random() < 0.6 else torch.float32)
    keep = X.clone()
    Y = min_max_scaler(X, lo, hi)
    a, b = A.min(), A.max()
    want = lo + (A - a) * (hi - lo) / (b - a)
    eps = 2 ** -52 if X.dtype == torch.float64 else 2 ** -23
    tol = 1e-5 * (hi - lo) + 8 * eps * (np.abs(A).max() / (b - a) * (hi - lo) + abs(lo) + abs(hi))          # rounding of X * scale + offset
    ctx.ok(Y.shape == X.shape and np.abs(Y.double().numpy() - want).max() <= tol, "features are mapped affinely onto the range", lo=lo, hi=hi, got=Y.tolist(), want=want.tolist())
    ctx.ok(abs(float(Y.min()) - lo) <= tol and abs(float(Y.max()) - hi) <= tol, "minimum and maximum are attained", got=(float(Y.min()), float(Y.max())))
    ctx.ok(torch.equal(X, keep), "the input is not modified")
    if X.dim() == 2:
        ctx.ok(close(min_max_scaler(X.T, lo, hi).double().numpy(), Y.T.double().numpy(), 1e-5), "the layout does not matter")
    X.neg_()
    Z = min_max_scaler(X, lo, hi).double().numpy()
    ctx.ok(np.abs(Z - (lo + hi - want)).max() <= 2 * tol, "scaled again after an edit in place")
    X.neg_()
    ctx.raises(lambda: min_max_scaler(X, hi, lo), "an empty range is refused")
    ctx.raises(lambda: min_max_scaler(X, lo, lo), "an empty range is refused")
    ctx.event("scale")
    ctx.state("scale", A.tolist(), lo, hi)


def compose(ctx):
    from functools import partial

    import torch
    from dhg.datapipe import compose_pipes, min_max_scaler, norm_ft, to_tensor

    rng = ctx.rng
    steps = [rng.choice("abcdef") for _ in range(rng.randint(0, 5))]
    pipe = compose_pipes(*[(lambda x, c=c: x + c) for c in steps])
    for s in ("", "z"):
        ctx.ok(pipe(s) == s + "".join(steps), "pipes are applied in order", got=pipe(s), want=s + "".join(steps))
    same = {c: (lambda x, c=c: x + c) for c in "ab"}      # the very same step at several places
    twice = [rng.choice("ab") for _ in range(rng.randint(2, 6))]
    got = compose_pipes(*[same[c] for c in twice])("")
    ctx.ok(got == "".join(twice), "a step given several times is applied each time", got=got, want="".join(twice))
    A = rdense(rng, 4, 3, lo=0.1, hi=3)
    f = compose_pipes(to_tensor, partial(norm_ft, ord=1), partial(min_max_scaler, ft_min=-1, ft_max=1))
    R = A / A.sum(1, keepdims=True)
    want = -1 + 2 * (R - R.min()) / (R.max() - R.min())
    ctx.ok(close(f(A.tolist()), want, 1e-3) and close(f(A), want, 1e-3), "a composed pipe can be applied repeatedly")
    ctx.event("compose")
    ctx.state("compose", steps, A.tolist())


SCENARIOS = [("convert", convert, 300, 6000), ("norm", norm, 200, 4000), ("scale", scale, 120, 2000), ("compose", compose, 60, 800)]
REQUIRED_EVENTS = {"other type": 20, "layout": 40, "to float": 50, "to bool": 50, "to long": 50, "from csr": 2, "from coo": 2, "norm 1-D": 20, "norm 2-D": 50, "scale": 60, "compose": 30}
