"""Documented defaults: a module built with none of its optional arguments is the one built with the documented values."""
import torch


def check(ctx, name, cls, args, documented, call):
    """``call(module)`` -> list of tensors; compared in training and evaluation under the same seeds."""
    s = ctx.rng.randrange(10 ** 6)
    torch.manual_seed(s)
    a = cls(*args)
    torch.manual_seed(s)
    some = {k: v for k, v in documented.items() if ctx.rng.random() < 0.9}
    b = cls(*args, **some)
    sa, sb = a.state_dict(), b.state_dict()
    ctx.need([(k, tuple(v.shape)) for k, v in sa.items()] == [(k, tuple(v.shape)) for k, v in sb.items()], name + ": parameters of the documented defaults",
             got=list(sa), want=list(sb))
    ctx.ok(all(torch.equal(sa[k], sb[k]) for k in sa), name + ": the initialisation does not depend on how a default is given")
    with torch.no_grad():
        for p, q in zip(a.parameters(), b.parameters()):
            p.add_(0.3)
            q.add_(0.3)
    for train in (True, False, True):
        outs = []
        for m in (a, b):
            m.train(train)
            torch.manual_seed(s + 1)
            outs.append([t.detach() for t in call(m)])
        ctx.ok(all(x.shape == y.shape and torch.allclose(x, y, 1e-5, 1e-6) for x, y in zip(*outs)), name + ": defaults are the documented ones", training=train,
               given=some, got=[x.tolist() for x in outs[0]][:2], want=[x.tolist() for x in outs[1]][:2])
    ctx.event("defaults")
    ctx.state("defaults", name, sorted(map(str, some)))
