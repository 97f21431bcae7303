"""Exact oracle for dropout inside small models: every possible set of dropped entries gives one result.

The training output of a model has to be one of these results, and they have to occur as often as the rate says.
"""
import itertools

import numpy as np
import torch

from .ref import kl


def outcomes(sites, f):
    """All bit patterns (1 = kept) of the sites' entries with the output each one gives, bits that never matter removed."""
    k = [int(np.prod(s)) for s in sites]
    n = sum(k)
    bits = list(itertools.product([1, 0], repeat=n))
    outs = []
    for b in bits:
        m, at = [], 0
        for s, c in zip(sites, k):
            m.append(torch.tensor(b[at:at + c], dtype=torch.float64).view(s))
            at += c
        outs.append(torch.cat([t.reshape(-1) for t in f(*m)]).detach())
    outs = torch.stack(outs)
    idx = {b: i for i, b in enumerate(bits)}
    flip = lambda b, j: b[:j] + (1 - b[j],) + b[j + 1:]
    tol = 1e-6 * (1 + float(outs.abs().max()))
    used = [j for j in range(n) if any(float((outs[idx[b]] - outs[idx[flip(b, j)]]).abs().max()) > tol for b in bits if b[j])]
    keep = [b for b in bits if all(b[j] for j in range(n) if j not in used)]
    return [[b[j] for j in used] for b in keep], outs[[idx[b] for b in keep]]


def judge(ctx, name, draw, sites, f, p, draws=60, **info):
    """``draw()`` runs the model in training mode; ``f(*masks)`` is the float64 output for masks of zeros and ones."""
    bits, outs = outcomes(sites, f)
    scale = 1 + outs.abs().amax(0)
    hits, lone = [], True
    for _ in range(draws):
        o = torch.cat([t.detach().double().reshape(-1) for t in draw()])
        ctx.need(bool(torch.isfinite(o).all()) and o.shape == outs[0].shape, name + ": a training output is finite", **info)
        near = (((outs - o).abs() / scale).amax(1) < 2e-4).nonzero().view(-1).tolist()
        ctx.need(bool(near), name + ": in training, entries are dropped or rescaled where documented", p=p, got=o.tolist()[:8],
                 kept_all=outs[0].tolist()[:8], **info)
        lone = lone and len(near) == 1
        hits.append(near[0])
    k = len(bits[0])
    ctx.event("dropout outcomes")
    if k:
        prob = lambda b: p ** (len(b) - sum(b)) * (1 - p) ** sum(b)
        if lone:
            lost = sum(k - sum(bits[h]) for h in hits)
            ctx.ok(draws * k * kl(lost / draws / k, p) < 32, name + ": entries are dropped at the given rate", p=p, dropped=lost, of=draws * k, **info)
            for j in range(k):
                lost = sum(1 - bits[h][j] for h in hits)
                ctx.ok(draws * kl(lost / draws, p) < 32, name + ": every entry is dropped at the given rate", p=p, entry=j, dropped=lost, of=draws, **info)
            ctx.event("dropout rate")
        # all kept is a single outcome unless others give the same output
        same = ((outs - outs[0]).abs() / scale).amax(1) < 2e-4
        q = sum(prob(b) for b, s in zip(bits, same.tolist()) if s)
        got = sum(bool(same[h]) for h in hits)
        ctx.ok(draws * kl(got / draws, min(q, 1.0)) < 32, name + ": nothing is dropped as often as the rate says", p=p, got=got, of=draws, want=q, **info)
