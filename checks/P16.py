"""Seeding makes every random outcome reproducible."""
import hashlib
import json
import os
import pathlib
import random
import subprocess
import sys
import time

from lib.harness import REPO
from lib.seedtrace import ops, trace

RULE = "one state per distinct (seed, plan of random operations) replayed and compared"
HERE = pathlib.Path(__file__).resolve().parent.parent


def plan_of(rng):
    names = sorted(ops())
    return [rng.choice(names) for _ in range(rng.randint(1, 8))]


def noise(rng):
    """Unrelated activity that leaves all generators somewhere else."""
    import numpy as np
    import torch

    for _ in range(rng.randint(0, 5)):
        random.random(), np.random.rand(), torch.rand(2)


def replay(ctx):
    import dhg.random as R

    rng = ctx.rng
    s = rng.choice([0, 1, 2, 42, 2021, 2 ** 31, 2 ** 32 - 1, rng.randrange(2 ** 32)])
    plan = plan_of(rng)
    v = rng.choice([0, 1, 2])
    a = trace(s, plan, v=v)
    ctx.ok(R.seed() == s, "seed() reports the seed that was set", got=R.seed(), want=s)
    noise(rng)
    if rng.random() < 0.4:
        trace(rng.randrange(1000), plan_of(rng), v=rng.choice([0, 1, 2]))
    b = trace(s, plan, v=v)
    bad = [n for n, x, y in zip(plan, a, b) if json.dumps(x) != json.dumps(y)]
    ctx.ok(not bad, "the same seed replays the same outcomes", first=bad[:1], plan=plan, seed=s, variant=v)
    ctx.ok(R.seed() == s, "seed() reports the seed that was set", got=R.seed(), want=s)
    ctx.event("replay")
    ctx.state(s, plan, v)
    ctx.sample({"seed": s, "plan": plan, "variant": v})


def each(ctx):
    """Every operation on its own: reproducible, and driven by the seed."""
    names = sorted(ops())
    n, v = names[ctx.idx % len(names)], ctx.idx // len(names) % 3
    outs = []
    for s in range(6 if not v else 3):
        a = trace(s, [n], v=v)
        noise(ctx.rng)
        ctx.ok(json.dumps(trace(s, [n], v=v)) == json.dumps(a), "the same seed replays the same outcome", operation=n, seed=s, variant=v)
        outs.append(json.dumps(a))
    ctx.ok(len(set(outs)) > 1, "different seeds give different outcomes", operation=n, variant=v)
    ctx.event("operation alone")
    ctx.state(n, v)


def sources(ctx):
    """After set_seed each of the three generators is in the state its own seeding gives."""
    import dhg
    import numpy as np
    import torch

    s = ctx.rng.randrange(2 ** 32)
    f = ctx.rng.choice([dhg.random.set_seed, dhg.random.set_seed])
    noise(ctx.rng)
    f(s)
    got = (random.random(), float(np.random.rand()), torch.rand(3).tolist())
    want = (random.Random(s).random(), float(np.random.RandomState(s).rand()),
            torch.rand(3, generator=torch.Generator().manual_seed(s)).tolist())
    ctx.ok(got[0] == want[0], "random is seeded", got=got[0], want=want[0])
    ctx.ok(got[1] == want[1], "numpy is seeded", got=got[1], want=want[1])
    ctx.ok(got[2] == want[2], "torch is seeded", got=got[2], want=want[2])
    ctx.event("sources")
    ctx.state(s)


def process(ctx):
    """Another process, with another hash seed, gives the same outcomes."""
    rng = ctx.rng
    s = rng.randrange(2 ** 32)
    names = sorted(ops())
    plan = names if ctx.idx % 4 < 3 else plan_of(rng)
    v = ctx.idx % 3
    want = hashlib.sha256(json.dumps(trace(s, plan, v=v)).encode()).hexdigest()
    hs = ["12345", "1", "random", "0"][ctx.idx % 4]
    env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONPATH=str(HERE) + os.pathsep + str(REPO))
    r = subprocess.run([sys.executable, "-m", "lib.seedtrace", str(REPO), str(s), json.dumps(plan), str(v)], cwd=HERE, env=env,
                       capture_output=True, text=True, timeout=600)
    out = [x.split()[1] for x in r.stdout.splitlines() if x.startswith("TRACE ")]
    ctx.need(r.returncode == 0 and out, "the other process finished", err=r.stderr[-1500:])
    ctx.ok(out[0] == want, "another process replays the same outcomes", plan=plan, seed=s, hash_seed=hs, variant=v)
    ctx.event("process")
    ctx.state(s, plan, hs, v)


def unset(ctx):
    """Before any set_seed, seed() follows the clock."""
    code = "import sys,time; sys.path.insert(0, %r); import dhg.random as R; a=int(time.time()); s=R.seed(); b=int(time.time()); " \
           "print('SEED', a, s, b); R.set_seed(7); print('SET', R.seed())" % str(REPO)
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=600)
    line = [x.split()[1:] for x in r.stdout.splitlines() if x.startswith("SEED")]
    ctx.need(r.returncode == 0 and line, "the process finished", err=r.stderr[-1500:])
    a, s, b = map(int, line[0])
    ctx.ok(a <= s <= b, "the default seed is the current time", got=line)
    ctx.ok("SET 7" in r.stdout, "the seed can be set", got=r.stdout)
    ctx.state("unset")


SCENARIOS = [("each", each, 192, 384), ("replay", replay, 60, 600), ("sources", sources, 30, 300), ("process", process, 3, 8), ("unset", unset, 1, 2)]
REQUIRED_EVENTS = {"replay": 40, "operation alone": 150, "sources": 20, "process": 2}
