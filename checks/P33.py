"""Experiments train on the training part only, keep the best model, and clean up: an event-trace monitor."""
import copy
import pathlib

import torch

from lib import zoo as Z
from lib.ref import close

RULE = "one state per distinct (task, options, data) run whose event trace was judged"


class Trace:
    """Events of one run: (kind, payload) in the order they happened."""

    def __init__(self):
        self.ev, self.by = [], {}

    def add(self, kind, **kw):
        self.ev.append((kind, kw))
        self.by.setdefault(kind, []).append(kw)

    def of(self, kind):
        return list(self.by.get(kind, ()))


def snap(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}


def equal_sd(a, b):
    return set(a) == set(b) and all(torch.equal(a[k], b[k]) for k in a)


def quiet():
    import optuna

    optuna.logging.disable_default_handler()
    lg = optuna.logging.get_logger("optuna")
    return set(lg.handlers)


def drop_handlers(before):
    import optuna

    lg = optuna.logging.get_logger("optuna")
    for h in list(lg.handlers):
        if h not in before:
            h.close()
            lg.removeHandler(h)


def watch(model, tr, trial):
    """Record every forward of the model: mode, gradient mode, parameters, output."""
    def hook(m, args, out):
        tr.add("forward", trial=trial, training=m.training, sub={x.training for x in m.modules()}, grad=torch.is_grad_enabled(),
               sd=snap(m), out=[o.detach().clone() for o in (out if isinstance(out, tuple) else (out,))], args=args)
    model.register_forward_hook(hook)
    return model


class Crit(torch.nn.Module):
    def __init__(self, tr, trial, fn):
        super().__init__()
        self.tr, self.trial, self.fn = tr, trial, fn

    def forward(self, *a, **kw):
        self.tr.add("loss", trial=self.trial, args=[x.detach().clone() for x in a], kw=kw)
        return self.fn(*a, **kw)


class Sched(torch.optim.lr_scheduler.LambdaLR):
    """A scheduler that also counts (the task must step it once per epoch)."""

    def __init__(self, opt, tr, trial):
        self.tr, self.trial = None, trial
        super().__init__(opt, lambda k: 1 / (1 + 0.25 * k))
        self.tr = tr

    def step(self, *a, **kw):
        if self.tr is not None:
            self.tr.add("sched", trial=self.trial)
        return super().step(*a, **kw)


def spy(ev, tr, score=(1, 0)):
    """Record what reaches the evaluator and what it answers; validation scores may have any magnitude."""
    for name in ("validate", "test", "validate_add_batch", "test_add_batch", "validate_epoch_res", "test_epoch_res"):
        f = getattr(ev, name)

        def g(*a, _f=f, _n=name):
            b = [x.detach().clone() for x in a]
            r = _f(*a)
            if _n in ("validate", "validate_epoch_res") and score != (1, 0):
                r = score[0] * r + score[1]
            tr.add(_n, args=b, res=copy.deepcopy(r))
            return r
        setattr(ev, name, g)
    return ev


SCORES = [(1, 0)] * 5 + [(1e6, 0), (-1e6, 0), (1, -5000.0), (1, 5000.0), (1e-7, 0), (1e-3, -1e9), (1e12, 1e13), (0.0, -1.0)]


def options(rng):
    return dict(some_options(rng), score=rng.choice(SCORES))


def some_options(rng):
    if rng.random() < 0.05:      # a long run
        return dict(epochs=rng.choice([30, 60, 110]), trials=rng.choice([1, 2]), direction=rng.choice(["maximize", "minimize"]), builder=False, sched=True, lr=0.05)
    return dict(epochs=rng.randint(1, 6), trials=rng.choice([1, 1, 2, 3, 8]), direction=rng.choice(["maximize", "maximize", "minimize"]),
                builder=rng.random() < 0.5, sched=rng.random() < 0.5, lr=rng.choice([0.05, 0.5]))


def cls_setup(ctx):
    import dhg
    from dhg import models

    rng = ctx.rng
    kind = rng.choice(["g", "h"])
    names = ["GCN", "GraphSAGE", "GIN"] if kind == "g" else ["HGNN", "HGNNP", "UniSAGE", "UniGCN"]
    name = rng.choice(names)
    k, c = rng.randint(2, 4), rng.randint(2, 3)
    size = 14
    if rng.random() < 0.06:
        size, k = rng.choice([(140, 5), (300, 11), (1100, 7)])
        ctx.event("large data")
    w = Z.rand_world(rng, kind, size, c, k)
    while w["n"][0] < 6 + 4 * (k > 4):
        w = Z.rand_world(rng, kind, size, c, k)
    n = w["n"][0]
    y = torch.tensor([i % k for i in range(k)] + [rng.randrange(k) for _ in range(n - k)])
    y = y[torch.randperm(n)]
    part = [rng.randrange(3) for _ in range(n)]
    part[:3] = [0, 1, 2]
    mk = [torch.tensor([p == q for p in part]) for q in range(3)]
    if rng.random() < 0.3:
        mk = [m.nonzero().view(-1) for m in mk]      # index tensors are masks as well
    data = dict(features=w["x"][0].clone(), labels=y, train_mask=mk[0], val_mask=mk[1], test_mask=mk[2], structure=Z.build(dhg, w)[0])
    cls = getattr(models, name)
    make = (lambda h: cls(c, h, k, 2, use_bn=False, drop_rate=0.2)) if name == "GIN" else (lambda h: cls(c, h, k, use_bn=True, drop_rate=0.2))
    return kind, name, w, data, make


def cls_task(kind, rng):
    from dhg import experiments as E

    return rng.choice([E.VertexClassificationTask, E.GraphVertexClassificationTask if kind == "g" else E.HypergraphVertexClassificationTask])


def run_cls(ctx, task_cls, kind, w, data, make, opt, root, seed, tr, metrics=None, vi=0, **kw):
    import dhg
    from dhg.metrics import VertexClassificationEvaluator

    dhg.random.set_seed(seed)
    data = {k: (v.clone() if torch.is_tensor(v) else v.clone()) for k, v in data.items()}
    structs = []

    def structure_builder(trial):
        s = copy.deepcopy(w)
        keep = trial.suggest_int("keep", 1, max(1, len(s["e"][0])))
        s["e"] = [s["e"][0][:keep]]
        g = Z.build(dhg, s)[0]
        tr.add("structure", trial=trial.number, s=g, keep=keep)
        return g

    def model_builder(trial):
        h = trial.suggest_int("hidden", 2, 6)
        m = watch(make(h), tr, trial.number)
        tr.add("model", trial=trial.number, m=m, h=h)
        return m

    def train_builder(trial, model):
        lr = trial.suggest_float("lr", opt["lr"] / 5, opt["lr"])
        o = torch.optim.Adam(model.parameters(), lr=lr)
        o.register_step_post_hook(lambda *_a: tr.add("step", trial=trial.number, lr=o.param_groups[0]["lr"] / lr))
        tr.add("train", trial=trial.number, m=model)
        r = {"optimizer": o, "criterion": Crit(tr, trial.number, torch.nn.CrossEntropyLoss())}
        if opt["sched"]:
            r["scheduler"] = Sched(o, tr, trial.number)
        return r

    ev = spy(VertexClassificationEvaluator(metrics or ["accuracy", {"f1_score": {"average": "macro"}}], vi), tr, opt["score"])
    before = quiet()
    try:
        task = task_cls(root, data, model_builder, train_builder, ev, torch.device("cpu"),
                        structure_builder=structure_builder if opt["builder"] else None, **kw)
        if opt["direction"] == "maximize" and opt["trials"] == 1:
            task.run(opt["epochs"])
        else:
            task.run(opt["epochs"], opt["trials"], opt["direction"])
    finally:
        drop_handlers(before)
    return task, data


def classify(ctx):
    rng = ctx.rng
    kind, name, w, data, make = cls_setup(ctx)
    opt = options(rng)
    tr = Trace()
    root = ctx.tmp() / "work"
    T = cls_task(kind, rng)
    metrics = rng.choice([None, None, ["accuracy", "confusion_matrix"], [{"f1_score": {"average": "micro"}}]])
    vi = 1 if metrics is None and rng.random() < 0.4 else 0
    study = rng.choice(["s1", "a study"])
    task, held = run_cls(ctx, T, kind, w, data, make, opt, str(root) if rng.random() < 0.5 else root, 11, tr, metrics, vi, study_name=study)
    info = dict(task=T.__name__, model=name, opt=opt)
    F0, (sa, sb) = task.evaluator.func_list[vi], opt["score"]
    F = F0 if (sa, sb) == (1, 0) else lambda *a: sa * F0(*a) + sb
    S = task.study
    ctx.ok(len(S.trials) == opt["trials"], "as many trials as asked", got=len(S.trials), **info)
    sign = 1 if opt["direction"] == "maximize" else -1
    done = []
    for t in S.trials:
        i = t.number
        ev = [(k, p) for k, p in tr.ev if p.get("trial", i) == i]
        fw = [p for k, p in tr.ev if k == "forward" and p["trial"] == i]
        # the events of the final test belong to the best trial's rebuilt model: cut them off
        trains, vals = [p for p in fw if p["training"]], [p for p in fw if not p["training"]]
        if i == S.best_trial.number:
            ctx.need(len(vals) >= 1, "the best trial is tested", **info)
            vals = vals[:-1]
        pruned = t.state.name == "PRUNED"
        ctx.ok(t.state.name in ("COMPLETE", "PRUNED"), "trials end regularly", state=t.state.name, **info)
        ne = opt["epochs"] if not pruned else len(vals)
        ctx.ok(len(trains) == ne and len(vals) == ne, "each epoch trains once and validates once", trial=i, trains=len(trains), vals=len(vals), want=ne, **info)
        losses = [p for p in tr.of("loss") if p["trial"] == i]
        ctx.ok(len(losses) == ne, "one loss per epoch")
        steps = [p for p in tr.of("step") if p["trial"] == i]
        ctx.ok(len(steps) == ne, "one optimizer step per epoch", got=len(steps), want=ne)
        ctx.ok(all(abs(p["lr"] - (1 / (1 + 0.25 * j) if opt["sched"] else 1)) < 1e-9 for j, p in enumerate(steps)), "the learning rate follows the schedule", got=[p["lr"] for p in steps], **info)
        if opt["sched"]:
            k = len([p for p in tr.of("sched") if p["trial"] == i])
            ctx.ok(k == ne or (pruned and k == ne - 1), "the scheduler is stepped once per epoch", got=k, want=ne)
        ctx.ok(len([p for p in tr.of("train") if p["trial"] == i]) == 1, "one training configuration per trial")
        for a, b in zip(trains, losses):
            ctx.ok(a["grad"] and a["sub"] == {True}, "training runs in training mode with gradients")
            ctx.ok(torch.equal(b["args"][0], a["out"][0][data["train_mask"]]) and torch.equal(b["args"][1], data["labels"][data["train_mask"]]),
                   "the loss compares the training vertices' outputs with their labels", **info)
        st = [p for p in tr.of("structure") if p["trial"] == i]
        ctx.ok(len(st) == (1 if opt["builder"] else 0), "one structure per trial if there is a builder")
        for p in trains + vals:
            ctx.ok(torch.equal(p["args"][0], data["features"]), "the model sees the features")
            s = p["args"][1]
            ctx.ok(s.e == (st[0]["s"].e if st else data["structure"].e), "the model sees the trial's structure", **info)
        scores = []
        for p in vals:
            ctx.ok(not p["grad"] and p["sub"] == {False}, "validation runs in evaluation mode without gradients")
            scores.append(F(data["labels"][data["val_mask"]], p["out"][0][data["val_mask"]]))
        ctx.ok([t.intermediate_values.get(j) for j in range(ne)] == scores, "the reported scores are the validation scores", got=t.intermediate_values, want=scores, **info)
        if not pruned:
            best = max(scores, key=lambda x: sign * x)
            ctx.ok(t.value == best, "a trial's value is its best epoch", got=t.value, want=scores, **info)
            done.append((t, scores, vals))
        else:
            ctx.event("pruned trial")
    ctx.event("trial", len(S.trials))
    # the outcome
    top = max(sign * t.value for t, *_ in done)
    bt = S.best_trial
    ctx.ok(sign * bt.value == top and task.best_trial.number == bt.number, "the best trial is kept", values=[t.value for t, *_ in done], got=bt.value, **info)
    _, scores, vals = next(d for d in done if d[0].number == bt.number)
    good = [p["sd"] for p, sc in zip(vals, scores) if sc == bt.value]
    ctx.ok(any(equal_sd(snap(task.best_model), g) for g in good), "the best model is the one that reached the best score", scores=scores, **info)
    if opt["builder"]:
        want = [p["s"] for p in tr.of("structure") if p["trial"] == bt.number][0]
    else:
        want = data["structure"]
    ctx.ok(type(task.best_structure) is type(want) and task.best_structure.e == want.e and task.best_structure.num_v == want.num_v,
           "the best structure is the one of the best trial", **info)
    # test
    te = tr.of("test")
    ctx.need(len(te) == 1, "the best model is tested once", got=len(te), **info)
    last = [p for p in tr.of("forward")][-1]
    ctx.ok(not last["training"] and not last["grad"] and equal_sd(last["sd"], snap(task.best_model)), "testing uses the best model in evaluation mode")
    ctx.ok(last["args"][1].e == want.e, "testing uses the best structure")
    ctx.ok(torch.equal(te[0]["args"][0], data["labels"][data["test_mask"]]) and torch.equal(te[0]["args"][1], last["out"][0][data["test_mask"]]),
           "testing compares the test vertices' outputs with their labels", **info)
    # explicit arguments
    m2 = make(3)
    with torch.no_grad():
        m2.eval()
        o = m2(data["features"], data["structure"])
    d2 = {k: (v.clone() if torch.is_tensor(v) else v) for k, v in data.items()}
    r = task.test(d2, m2.train())
    ctx.ok(repr(r) == repr({k: f(data["labels"][data["test_mask"]], o[data["test_mask"]]) for k, f in zip(task.evaluator.marker_list, task.evaluator.func_list)}),
           "testing given data and model uses these", got=r)
    for k in ("features", "labels", "train_mask", "val_mask", "test_mask"):
        ctx.ok(torch.equal(held[k], data[k]), "the data are kept", key=k)
    files(ctx, task, root, study, bt.number, S, want)
    ctx.event("classification run")
    ctx.event(T.__name__)
    ctx.state("cls", T.__name__, name, sorted(opt.items()), w["e"])
    ctx.sample(dict(task=T.__name__, model=name, options=opt, values=[t.value for t in S.trials], best=bt.number, scores=scores))


def files(ctx, task, root, study, best, S, want):
    from dhg.structure.base import load_structure

    sr = pathlib.Path(root) / study
    ctx.ok(pathlib.Path(task.study_root) == sr and sr.is_dir(), "files are kept below the study root", got=task.study_root)
    got = sorted(p.name for p in (sr / "cache").glob("*"))
    exp = [f"{best}_model.pth"] + ([f"{best}_structure.dhg"] if want is not None else [])
    ctx.ok(got == sorted(exp), "only the best trial's files are kept", got=got, want=exp)
    sd = torch.load(sr / "cache" / f"{best}_model.pth")
    ctx.ok(equal_sd(sd, snap(task.best_model)), "the saved model is the best model")
    if want is not None:
        ctx.ok(load_structure(sr / "cache" / f"{best}_structure.dhg").e == want.e, "the saved structure is the best structure")
    text = (sr / "log.txt").read_text(encoding="utf8")
    ctx.ok("%.3f" % S.best_value in text and all(k in text for k in S.best_params), "the log tells the best value and parameters")
    rest = sorted(p.name for p in sr.iterdir())
    ctx.ok(set(rest) == {"cache", "log.txt"}, "nothing else is left in the study root", got=rest)
    ctx.ok(sorted(p.name for p in pathlib.Path(root).iterdir()) == [study], "nothing else is left in the work root")


def leak(ctx):
    """Seeded runs repeat; labels outside the training part never change the training, test labels change nothing but the test."""
    rng = ctx.rng
    kind, name, w, data, make = cls_setup(ctx)
    opt = options(rng)
    T = cls_task(kind, rng)
    seed = rng.randint(1, 1000)
    res = []
    k = int(data["labels"].max()) + 1
    for what in ("base", "again", "test labels", "val labels"):
        d = {q: v.clone() for q, v in data.items()}
        idx = {"test labels": "test_mask", "val labels": "val_mask"}.get(what)
        if idx:
            d["labels"][d[idx]] = (d["labels"][d[idx]] + 1) % k
        tr = Trace()
        task, _ = run_cls(ctx, T, kind, w, d, make, opt, ctx.tmp() / "w", seed, tr, study_name="s")
        res.append((task, tr))
    base, btr = res[0]
    for (task, tr), what in zip(res[1:3], ("a seeded experiment repeats", "test labels do not influence training or selection")):
        ctx.ok([t.value for t in task.study.trials] == [t.value for t in base.study.trials], what + " (values)")
        ctx.ok([t.params for t in task.study.trials] == [t.params for t in base.study.trials], what + " (parameters)")
        ctx.ok(equal_sd(snap(task.best_model), snap(base.best_model)), what + " (model)", opt=opt, model=name)
    # validation labels steer only the search: within the first trial nothing but the scores changes
    f0 = [p["sd"] for p in btr.of("forward") if p["trial"] == 0 and p["training"]]
    f3 = [p["sd"] for p in res[3][1].of("forward") if p["trial"] == 0 and p["training"]]
    ctx.ok(len(f0) == len(f3) and all(equal_sd(a, b) for a, b in zip(f0, f3)), "validation labels do not influence the training", opt=opt, model=name)
    ctx.event("leak")
    ctx.state("leak", name, sorted(opt.items()), w["e"])


def recommend(ctx):
    import dhg
    from dhg.experiments import UserItemRecommenderTask
    from dhg.metrics import UserItemRecommenderEvaluator
    from dhg.models import LightGCN
    from dhg.nn import BPRLoss
    from dhg.utils import UserItemDataset
    from torch.utils.data import DataLoader

    rng = ctx.rng
    nu, ni = rng.randint(3, 7), rng.randint(5, 9)
    if rng.random() < 0.06:
        nu, ni = rng.choice([(70, 40), (30, 270), (270, 30)])
        ctx.event("large data")
    per = {u: rng.sample(range(ni), rng.randint(2, 4)) for u in range(nu)}
    train = [(u, i) for u in per for i in per[u][:-1]]
    test = [(u, per[u][-1]) for u in per]
    opt = options(rng)
    opt["trials"] = min(opt["trials"], 3)
    if nu * ni > 100:
        opt["epochs"] = min(opt["epochs"], 6)
    use_s = rng.random() < 0.7
    if not use_s:
        opt["builder"] = False
    tr = Trace()
    dhg.random.set_seed(5)
    tl = DataLoader(UserItemDataset(nu, ni, train, phase="train"), batch_size=rng.choice([2, 5, 100]), shuffle=True)
    vl = DataLoader(UserItemDataset(nu, ni, test, train, phase="test"), batch_size=rng.choice([1, 2, 100]), shuffle=False)
    data = dict(train_loader=tl, test_loader=vl)
    g0 = dhg.BiGraph.from_adj_list(nu, ni, [[u] + per[u][:-1] for u in per])
    if use_s and not opt["builder"]:
        data["structure"] = g0

    class MF(torch.nn.Module):
        def __init__(self, dim):
            super().__init__()
            self.u, self.i = torch.nn.Embedding(nu, dim), torch.nn.Embedding(ni, dim)

        def forward(self):
            return self.u.weight, self.i.weight

    def structure_builder(trial):
        k = trial.suggest_int("keep", 1, len(train))
        g = dhg.BiGraph(nu, ni, train[:k])
        tr.add("structure", trial=trial.number, s=g)
        return g

    def model_builder(trial):
        dim = trial.suggest_int("dim", 2, 5)
        return watch(LightGCN(nu, ni, dim, num_layers=2) if use_s else MF(dim), tr, trial.number)

    def make_loss(trial):
        bpr = BPRLoss()

        def loss(eu, ei, users, pos, neg, model=None):
            ok = all((int(u), int(p)) in train and (int(u), int(q)) not in train for u, p, q in zip(users, pos, neg))
            tr.add("triples", trial=trial, ok=ok, n=len(users), model=model)
            return bpr((eu[users] * ei[pos]).sum(1), (eu[users] * ei[neg]).sum(1))
        return loss

    def train_builder(trial, model):
        o = torch.optim.SGD(model.parameters(), lr=trial.suggest_float("lr", 0.05, 1.0))
        o.register_step_post_hook(lambda *_a: tr.add("step", trial=trial.number))
        r = {"optimizer": o, "criterion": make_loss(trial.number)}
        if opt["sched"]:
            r["scheduler"] = Sched(o, tr, trial.number)
        return r

    k = rng.randint(1, 4)
    cfgs = [{"ndcg": {"k": k}}, {"recall": {"k": k}}, {"precision": {"k": k}}]
    ev = spy(UserItemRecommenderEvaluator(cfgs, rng.randrange(3)), tr, opt["score"])
    root = ctx.tmp() / "w"
    before = quiet()
    try:
        task = UserItemRecommenderTask(root, data, model_builder, train_builder, ev, torch.device("cpu"),
                                       structure_builder=structure_builder if opt["builder"] else None, study_name="r")
        task.run(opt["epochs"], opt["trials"], opt["direction"])
    finally:
        drop_handlers(before)
    info = dict(opt=opt, structure=use_s)
    S, sign = task.study, 1 if opt["direction"] == "maximize" else -1
    bt = S.best_trial
    nb, nv = len(tl), len(vl)
    ctx.ok(all(p["ok"] for p in tr.of("triples")), "training batches are (user, positive, negative) triples")
    per_trial = {}
    for t in S.trials:
        fw = [p for p in tr.of("forward") if p["trial"] == t.number]
        trains, vals = [p for p in fw if p["training"]], [p for p in fw if not p["training"]]
        if t.number == bt.number:
            vals = vals[:-nv]
        ne = opt["epochs"] if t.state.name == "COMPLETE" else len(vals) // nv
        ctx.ok(len(trains) == ne * nb and len(vals) == ne * nv, "each epoch visits every training and every validation batch once", trains=len(trains), vals=len(vals), **info)
        ctx.ok(len([p for p in tr.of("step") if p["trial"] == t.number]) == ne * nb, "one optimizer step per batch")
        ctx.ok(all(p["sub"] == {True} and p["grad"] for p in trains), "training runs in training mode with gradients")
        ctx.ok(all(p["sub"] == {False} and not p["grad"] for p in vals), "validation runs in evaluation mode without gradients")
        ctx.ok(sum(p["n"] for p in tr.of("triples") if p["trial"] == t.number) == ne * len(train), "each interaction is visited once per epoch")
        if opt["sched"]:
            q = len([p for p in tr.of("sched") if p["trial"] == t.number])
            ctx.ok(q in (ne, ne - 1) if t.state.name == "PRUNED" else q == ne, "the scheduler is stepped once per epoch", got=q, want=ne)
        st = [x["s"] for x in tr.of("structure") if x["trial"] == t.number]
        for p in fw:
            if use_s:
                ctx.ok(p["args"][0].e == (st[0] if opt["builder"] else g0).e, "the model sees the trial's structure")
            else:
                ctx.ok(p["args"] == (), "a model without structure is called without")
        per_trial[t.number] = vals
        vr = [t.intermediate_values[j] for j in range(ne)]
        if t.state.name == "COMPLETE":
            ctx.ok(t.value == max(vr, key=lambda x: sign * x), "a trial's value is its best epoch", got=t.value, want=vr)
    # scores reach the evaluator as dot products plus the training mask
    batches = list(vl)
    for name, fwds in (("validate_add_batch", [p for t in S.trials for p in per_trial[t.number]]), ("test_add_batch", tr.of("forward")[-nv:])):
        adds = tr.of(name)
        if not ctx.ok(len(adds) == len(fwds), name + ": one per forward", got=len(adds), want=len(fwds)):
            continue
        for j, (p, a) in enumerate(zip(fwds, adds)):
            users, mask, rel = batches[j % nv]
            eu, ei = p["out"]
            ctx.ok(torch.equal(a["args"][0], rel) and close(torch.nan_to_num(a["args"][1], neginf=-1e6), torch.nan_to_num(eu[users] @ ei.t() + mask, neginf=-1e6), 1e-4),
                   name + ": scores are the products of the embeddings, training items masked")
    res = [p["res"] for p in tr.of("validate_epoch_res")]
    ctx.ok(res == [t.intermediate_values[j] for t in S.trials for j in sorted(t.intermediate_values)], "the reported scores are the validation scores")
    sd = snap(task.best_model)
    vals, scores = per_trial[bt.number], [bt.intermediate_values[j] for j in sorted(bt.intermediate_values)]
    good = [vals[j * nv]["sd"] for j, s in enumerate(scores) if s == bt.value]
    ctx.ok(sign * bt.value == max(sign * t.value for t in S.trials if t.value is not None and t.state.name == "COMPLETE"), "the best trial is kept")
    ctx.ok(any(equal_sd(sd, q) for q in good), "the best model is the one that reached the best score", scores=scores, **info)
    want = None if not use_s else (g0 if not opt["builder"] else [x["s"] for x in tr.of("structure") if x["trial"] == bt.number][0])
    ctx.ok(task.best_structure is None if want is None else task.best_structure.e == want.e, "the best structure is the one of the best trial")
    ctx.ok(all(equal_sd(p["sd"], sd) and not p["training"] for p in tr.of("forward")[-nv:]), "testing uses the best model in evaluation mode")
    # explicit arguments: another model, loader, structure
    m2 = LightGCN(nu, ni, 3, num_layers=1) if use_s else MF(3)
    g2 = dhg.BiGraph(nu, ni, rng.sample(train, rng.randint(1, len(train))))
    l2 = DataLoader(UserItemDataset(nu, ni, test, train, phase="test"), batch_size=rng.choice([1, 3, 50]), shuffle=False)
    ev2 = UserItemRecommenderEvaluator(cfgs, 0)
    with torch.no_grad():
        m2.eval()
        eu, ei = m2(g2) if use_s else m2()
        for users, mask, rel in l2:
            ev2.test_add_batch(rel, eu[users] @ ei.t() + mask)
    d2 = {"test_loader": l2}
    if use_s:
        d2["structure"] = g2
    r = task.test(d2, m2.train())
    w2 = ev2.test_epoch_res()
    ctx.ok(list(r) == list(w2) and all(abs(r[q] - w2[q]) < 1e-5 for q in r) and sorted(d2) == (["structure", "test_loader"] if use_s else ["test_loader"]),
           "testing given data and model uses these", got=r, want=w2)
    files(ctx, task, root, "r", bt.number, S, want)
    ctx.event("recommender run")
    ctx.event("recommender without structure", int(not use_s))
    ctx.state("rec", nu, ni, sorted(opt.items()), train)


def roots(ctx):
    """Study directories: overwrite or keep, refuse a missing work root's parent, name by time."""
    rng = ctx.rng
    kind, name, w, data, make = cls_setup(ctx)
    opt = dict(options(rng), epochs=1, trials=1)
    base = ctx.tmp()
    T = cls_task(kind, rng)
    ctx.raises(lambda: run_cls(ctx, T, kind, w, data, make, opt, base / "no" / "such", 1, Trace(), study_name="x"), "a work root without parent is refused")
    root = base / "w"
    run_cls(ctx, T, kind, w, data, make, opt, root, 1, Trace(), study_name="x")
    (root / "x" / "note").write_text("mine")
    (root / "other").mkdir()
    (root / "other" / "file").write_text("keep")
    log = (root / "x" / "log.txt").read_text()
    ow = rng.random() < 0.5
    kw = {} if ow and rng.random() < 0.5 else {"overwrite": ow}
    run_cls(ctx, T, kind, w, data, make, opt, root, 1, Trace(), study_name="x", **kw)
    ctx.ok((root / "x" / "note").exists() == (not ow), "an earlier study of that name is replaced exactly if asked", overwrite=ow)
    ctx.ok((root / "other" / "file").read_text() == "keep", "other studies are left alone")
    now = (root / "x" / "log.txt").read_text()
    ctx.ok(ow or now.startswith(log), "the log of a continued study is kept")
    tr = Trace()
    before = set(root.iterdir())
    task, _ = run_cls(ctx, T, kind, w, data, make, opt, root, 1, tr)
    new = set(root.iterdir()) - before
    ctx.ok(len(new) == 1 and pathlib.Path(task.study_root) in new, "a study without name gets a directory of its own", got=new)
    # a configuration without optimizer or criterion is refused
    import dhg
    from dhg.metrics import VertexClassificationEvaluator

    for miss in ("optimizer", "criterion"):
        def tb(trial, model):
            r = {"optimizer": torch.optim.SGD(model.parameters(), lr=0.1), "criterion": torch.nn.CrossEntropyLoss()}
            del r[miss]
            return r
        bf = quiet()
        try:
            task = T(root, dict(data), lambda t: make(3), tb, VertexClassificationEvaluator(["accuracy"]), torch.device("cpu"), study_name="y")
            ctx.raises(lambda: task.run(1), "a training configuration without optimizer or criterion is refused")
        finally:
            drop_handlers(bf)
    ctx.event("roots")
    ctx.state("roots", ow, name, w["e"])


def scripted(ctx):
    """The selection alone, with validation scores given by a script: many trials, ties, late winners, losers that are pruned."""
    import dhg
    from dhg.metrics import VertexClassificationEvaluator

    rng = ctx.rng
    kind, name, w, data, make = cls_setup(ctx)
    nt, ne = rng.choice([3, 12, 12, 25]), rng.choice([1, 1, 2, 3])
    direction = rng.choice(["maximize", "minimize"])
    sign = 1 if direction == "maximize" else -1
    if rng.random() < 0.7:      # rising scores are not pruned; one trial, often an early one, beats them
        plan = [[(k + (j + 1) / ne) / 100 for j in range(ne)] for k in range(nt)]
        plan[rng.choice([0, 1, 2, rng.randrange(nt)])][rng.randrange(ne)] = 5.0
    else:
        plan = [[rng.choice([0.1, 0.2, 0.3, 0.4]) for _ in range(ne)] for _ in range(nt)]
    a, b = rng.choice(SCORES[:-1])      # any magnitude
    plan = [[abs(a) * x + b for x in p] for p in plan]
    cur, said, snaps, structs = {}, {}, {}, {}

    class Script(VertexClassificationEvaluator):
        def validate(self, *a):
            t, j = cur["t"], cur["j"]
            cur["j"] += 1
            said.setdefault(t, []).append(sign * plan[t][j])
            snaps.setdefault(t, []).append(snap(cur["m"]))
            return sign * plan[t][j]

    def sb(trial):
        g = copy.deepcopy(w)
        g["e"] = [g["e"][0][:1 + trial.number % max(1, len(g["e"][0]))]]
        structs[trial.number] = Z.build(dhg, g)[0]
        return structs[trial.number]

    def mb(trial):
        torch.manual_seed(trial.number)
        m = make(2 + trial.number % 3)
        cur.update(m=m, t=trial.number, j=0)
        return m

    def tb(trial, model):
        return {"optimizer": torch.optim.SGD(model.parameters(), lr=0.1), "criterion": torch.nn.CrossEntropyLoss()}

    use = rng.random() < 0.6
    root = ctx.tmp() / "w"
    before = quiet()
    try:
        task = cls_task(kind, rng)(root, data, mb, tb, Script(["accuracy"]), torch.device("cpu"), structure_builder=sb if use else None, study_name="s")
        task.run(ne, nt, direction)
    finally:
        drop_handlers(before)
    S = task.study
    done = {t.number: t for t in S.trials if t.state.name == "COMPLETE"}
    ctx.ok(len(S.trials) == nt and len(done) > 0, "as many trials as asked")
    for i, t in done.items():
        ctx.ok(len(said[i]) == ne and t.value == max(said[i], key=lambda x: sign * x), "a trial's value is its best epoch", got=t.value, want=said[i])
    b = S.best_trial.number
    ctx.ok(sign * done[b].value == max(sign * t.value for t in done.values()) and task.best_trial.number == b, "the best trial is kept", got=b, values={i: t.value for i, t in done.items()})
    good = [q for q, v in zip(snaps[b], said[b]) if v == done[b].value]
    ctx.ok(any(equal_sd(snap(task.best_model), q) for q in good), "the best model is the one that reached the best score", best=b, scores=said[b])
    want = structs[b] if use else data["structure"]
    ctx.ok(task.best_structure.e == want.e, "the best structure is the one of the best trial", best=b)
    files(ctx, task, root, "s", b, S, want)
    ctx.event("scripted selection")
    ctx.event("scripted trials completed", len(done))
    ctx.state("script", nt, ne, direction, plan)


SCENARIOS = [("scripted", scripted, 25, 400), ("classify", classify, 60, 900), ("leak", leak, 15, 250), ("recommend", recommend, 30, 400), ("roots", roots, 10, 100)]
REQUIRED_EVENTS = {"scripted selection": 10, "scripted trials completed": 60, "classification run": 40, "trial": 80, "recommender run": 20, "recommender without structure": 3, "leak": 10, "roots": 5}
ASSUMPTIONS = ["CPU only", "Optuna works as documented", "validation scores are never NaN"]
