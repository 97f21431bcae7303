"""Dense float64 references of the layers and models, and the comparison of outputs and gradients."""
import copy

import numpy as np
import torch
import torch.nn.functional as F

from .ref import close, diff, inv, row_softmax

D = torch.float64


class Kink:
    """Smallest distance of a pre-activation to a kink: gradients are compared only away from them."""
    least = 1.0

    @classmethod
    def see(cls, x, at=0.0):
        y = (x.detach() - at).abs()
        y = y[y > 0]
        if y.numel():
            cls.least = min(cls.least, float(y.min()))


def relu(x):
    Kink.see(x)
    return F.relu(x)


def elu(x):
    Kink.see(x)
    return F.elu(x)


def leaky(x, s):
    Kink.see(x)
    return F.leaky_relu(x, s)


def twin(m):
    """Float64 copy; a batch norm that divides by a tiny deviation counts as a kink (ill-conditioned gradient)."""
    t = copy.deepcopy(m).double()

    def see(mod, args):
        if mod.training:
            s = float(args[0].detach().std(0, unbiased=False).min())
            Kink.least = min(Kink.least, s * 1e-4)

    for b in t.modules():
        if isinstance(b, torch.nn.BatchNorm1d):
            b.register_forward_pre_hook(see)
    return t


def t64(a):
    return torch.tensor(np.asarray(a), dtype=D)


def gcn_op(A, extra=False):
    """D^-1/2 (A + I) D^-1/2 of a dense adjacency (which may already have the extra self-loops)."""
    A = np.asarray(A, float) + (0 if extra else np.eye(len(A)))
    d = inv(A.sum(1), -0.5)
    return t64(d[:, None] * A * d[None, :])


def bi_op(B):
    n, m = B.shape
    A = np.zeros((n + m, n + m))
    A[:n, n:] = B
    A[n:, :n] = B.T
    return gcn_op(A)


def mean_op(A):
    return t64(inv(A.sum(1), -1.0)[:, None] * A)


def hgnn_op(H, w):
    dv = inv(H @ w, -0.5)[:, None]
    return t64((dv * H * w[None, :] * inv(H.sum(0), -1.0)[None, :]) @ (dv * H).T)


def hgnnp_op(H, w):
    return t64((inv(H @ w, -1.0)[:, None] * H * w[None, :] * inv(H.sum(0), -1.0)[None, :]) @ H.T)


def v2e_op(H, w):
    return t64((w * inv(H.sum(0), -1.0))[:, None] * H.T)


def masked_softmax(S, mask):
    """Row softmax over the entries of mask; empty rows are zero (differentiable)."""
    if S.shape[1] == 0:
        return S
    m = torch.tensor(mask)
    Z = torch.where(m, S, torch.full_like(S, -1e30))
    P = torch.where(m, torch.exp(Z - Z.max(1, keepdim=True)[0]), torch.zeros_like(S))
    s = P.sum(1, keepdim=True)
    return P / torch.where(s > 0, s, torch.ones_like(s))


def tail(L, X, bn, last, act=relu):
    if last:
        return X
    X = act(X)
    return L.bn(X) if bn else X


# ---- layers: (layer in float64, X, structure, last?, bn?) -> X ----------------
def clamp(s):
    Kink.see(s, 0.001)
    Kink.see(s, 5.0)
    return torch.clamp(s, 0.001, 5)


def gcn(L, X, S, last, bn):
    return tail(L, gcn_op(S["A"], S.get("extra", False)) @ L.theta(X), bn, last)


def sage(L, X, S, last, bn):
    return tail(L, L.theta(torch.cat([X, mean_op(S["A"]) @ X], 1)), bn, last)


def gat(L, X, S, last, bn, slope=0.2):
    X = L.theta(X)
    # row i receives from j: the score of the source j plus that of the destination i
    s = clamp(leaky(L.atten_src(X).T + L.atten_dst(X), slope))
    return tail(L, masked_softmax(s, S["P"] if "P" in S else S["A"] != 0) @ X, bn, last, elu)


def mlp(M, X, bn, last=False, act=relu):
    lin = [m for m in M.modules() if isinstance(m, torch.nn.Linear)]
    bns = [m for m in M.modules() if isinstance(m, torch.nn.BatchNorm1d)]
    for i, l in enumerate(lin):
        X = l(X)
        if i < len(lin) - 1 or not last:
            X = act(X)
            X = bns[i](X) if bn else X
    return X


def gin(M, X, S, eps, bn):
    return mlp(M, (1 + eps) * X + t64(S["A"]) @ X, bn)


def hgnn(L, X, S, last, bn):
    return tail(L, hgnn_op(S["H"], S["w"]) @ L.theta(X), bn, last)


def hgnnp(L, X, S, last, bn):
    return tail(L, hgnnp_op(S["H"], S["w"]) @ L.theta(X), bn, last)


def jh(L, X, S, last, bn):
    return tail(L, hgnn_op(S["H"], S["w"]) @ L.theta(X) + X, bn, last)


def hnhn(L, X, S, last, bn):
    Y = relu(v2e_op(S["H"], S["w"]) @ L.theta_v2e(X))
    return tail(L, t64(inv(S["H"] @ S["w"], -1.0)[:, None] * S["H"]) @ L.theta_e2v(Y), bn, last)


def unigcn(L, X, S, last, bn):
    H, w = S["H"], S["w"]
    dv = H @ w
    de = inv((H * dv[:, None]).sum(0) * inv(H.sum(0), -1.0), -0.5)
    Y = t64(de)[:, None] * (v2e_op(H, w) @ L.theta(X))
    return tail(L, t64(inv(dv, -0.5)[:, None] * H) @ Y, bn, last)


def unigat(L, X, S, last, bn, slope=0.2):
    H = S["H"]
    Y = v2e_op(H, S["w"]) @ L.theta(X)
    s = clamp(leaky(L.atten_e(Y), slope))
    return tail(L, masked_softmax(s.T.expand(H.shape), H != 0) @ Y, bn, last, elu)


def unisage(L, X, S, last, bn):
    X = L.theta(X)
    return tail(L, t64(S["H"]) @ (v2e_op(S["H"], S["w"]) @ X) + X, bn, last)


def unigin(L, X, S, last, bn, eps):
    X = L.theta(X)
    return tail(L, t64(S["H"]) @ (v2e_op(S["H"], S["w"]) @ X) + (1 + eps) * X, bn, last)


def hypergcn_graph(es, score, med, n):
    """Dense adjacency of the HyperGCN graph when every projection orders vertices by score."""
    A = np.zeros((n, n))
    for e in es:
        hi, lo = max(e, key=lambda v: score[v]), min(e, key=lambda v: score[v])
        pairs, w = [(hi, lo)], 1.0 / len(e)
        if med:
            w = 1.0 / (2 * len(e) - 3)
            for v in e:
                if v not in (hi, lo):
                    pairs += [(hi, v), (lo, v)]
        for a, b in pairs:
            A[a, b] += w
            A[b, a] += w
    return A


# ---- comparison ----------------------------------------------------------------
def tens(o):
    return list(o) if isinstance(o, (tuple, list)) else [o]


def compare(ctx, name, real, real_in, call, ref, tol=2e-4, grad=True, info=None):
    """``call(real, inputs)`` against ``ref(twin, inputs64)``: outputs, gradients of inputs and parameters, BN buffers."""
    info = info or {}
    dbl = twin(real)
    ins = [x.clone().requires_grad_(True) for x in real_in]
    ins64 = [x.detach().double().requires_grad_(True) for x in real_in]
    Kink.least = 1.0
    out = tens(call(real, *ins))
    want = tens(ref(dbl, *ins64))
    ctx.need(len(out) == len(want), name + ": number of results", got=len(out))
    # a badly conditioned batch norm: single precision may be off by what tiny changes of the intermediate values do to the result
    slack = [0.0] * len(out)
    if real.training and not all(close(o, w, tol, float(w.abs().max()) if w.numel() else 0.0) for o, w in zip(out, want)):
        noise = lambda x: (x + 1e-7 * max(1.0, len(x) ** 0.5 / 4) * x.abs().max() * torch.randn_like(x)).detach() if x.numel() else x
        for _ in range(3):
            rough = copy.deepcopy(dbl)
            for part in rough.modules():
                if isinstance(part, (torch.nn.Linear, torch.nn.BatchNorm1d)):
                    part.register_forward_hook(lambda mod, args, res: noise(res))
                if isinstance(part, torch.nn.BatchNorm1d):
                    part.register_forward_pre_hook(lambda mod, args: (noise(args[0]),) + tuple(args[1:]))
            other = tens(ref(rough, *[noise(x) for x in ins64]))
            slack = [max(s, 3 * float((a - w).abs().max()) if w.numel() else 0.0) for s, a, w in zip(slack, other, want)]
        ctx.event("ill-conditioned")
    for o, w, s in zip(out, want, slack):
        ctx.ok(close(o, w, tol, float(w.abs().max()) if w.numel() else 0.0) or o.shape == w.shape and bool(((o.double() - w).abs() <= s).all()), name + ": output", diff=diff(o, w), got=o.detach().tolist(), want=w.detach().tolist(), **info)
    ctx.ok(all(torch.equal(a.detach(), b) for a, b in zip(ins, real_in)), name + ": input features are not modified", **info)
    if grad and any(o.requires_grad for o in out) and Kink.least > 3e-5:
        R = [torch.randn(o.shape) for o in out]
        sum((o * r).sum() for o, r in zip(out, R)).backward()
        sum((o * r.double()).sum() for o, r in zip(want, R)).backward()
        pairs = [("input %d" % i, a.grad, b.grad) for i, (a, b) in enumerate(zip(ins, ins64))]
        ref_p = dict(dbl.named_parameters())
        pairs += [(k, p.grad, ref_p[k].grad) for k, p in real.named_parameters()]
        for k, a, b in pairs:
            za = a is None or not bool(a.abs().sum() > 0)
            zb = b is None or not bool(b.abs().sum() > 1e-9)
            if zb:
                ctx.ok(za or float(a.abs().max()) < 1e-4, name + ": gradient", of=k, got=a, want=None, **info)
                continue
            u = 1 + b.abs().max()
            ctx.ok(a is not None and a.shape == b.shape and (close(a.double() / u, b / u, 20 * tol) or float((a.double() - b).abs().max() / u) < 5e-4), name + ": gradient", of=k, diff=a is not None and diff(a, b), **info)
        ctx.event("gradient")
        real.zero_grad()
    rb = dict(dbl.named_buffers())
    for k, b in real.named_buffers():
        ctx.ok(close(b, rb[k], 1e-3), name + ": batch-norm statistics", of=k, **info)
    return [o.detach() for o in out]
