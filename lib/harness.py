"""Runtime-monitoring harness shared by every check.

A check is a module in /verif/checks with a list of *scenarios*.  A scenario is
a function ``f(ctx)`` that drives the real dhg code with a generated workload
and tells the monitor (``ctx``) what it observed.  The monitor

* seeds every random source from (VERIF_SEED, property, scenario, index), so a
  case can be replayed exactly;
* counts the oracle decisions (``ctx.ok``), the events (``ctx.event``) and the
  distinct non-trivial states (``ctx.state``) it has seen;
* observes which dhg functions really ran and how many dhg source lines were
  executed (``sys.monitoring``), which also gives a *logical* step bound: a case
  that executes more than STEP_LIMIT dhg lines is reported as non-terminating;
* writes the evidence file and a replay file per violation.

Verdicts are three-valued: exit 0 (held on everything observed), exit 1 (a
VIOLATION line), exit 3 (inconclusive: the monitors did not observe enough, or
the wall-clock watchdog fired).
"""
import collections
import hashlib
import json
import os
import pathlib
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
KNOWN_FILE = VERIF / "known_findings.txt"
STEP_LIMIT = 30_000_000
# Only for developing against scratch copies: put evidence/replays elsewhere.
OUT = pathlib.Path(os.environ.get("VERIF_OUT", str(VERIF)))


class StepLimit(BaseException):
    """A case executed an implausible number of dhg source lines."""


class Stop(Exception):
    """The case recorded a violation that makes going on pointless."""


def _h(*parts):
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:6], "big")


def load_known():
    """``known: property=<id> key=<key> <what fails>`` lines (fixed: lines suppress nothing)."""
    res = {}
    if KNOWN_FILE.exists():
        for line in KNOWN_FILE.read_text().splitlines():
            if line.startswith("known:"):
                _, prop, key, *what = line.split(None, 3)
                res[(prop.split("=", 1)[1], key.split("=", 1)[1])] = what[0] if what else ""
    return res


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.evaluations = 0
        self.decisions = collections.Counter()
        self.events = collections.Counter()
        self.states = set()
        self.cases = collections.Counter()
        self.samples = []
        self.violations = []
        self.vkeys = collections.Counter()
        self.known_hit = {}
        self.known = load_known()
        self.funcs = set()
        self.lines = 0
        self.max_lines = 0
        self._budget = 0
        self.cur = None
        self.log = []
        self.scratch = None
        self.perturb = None     # called at every executed dhg line (injected delays)
        self.rng = random.Random(0)

    # -- observations -------------------------------------------------------
    def ok(self, cond, key, /, **detail):
        """One oracle decision; ``key`` names what must hold."""
        self.evaluations += 1
        self.decisions[key] += 1
        if not cond:
            self._violate(key, detail)
        return bool(cond)

    def need(self, cond, key, /, **detail):
        """Like ok, but abandons the case when it fails."""
        if not self.ok(cond, key, **detail):
            raise Stop()

    def known_probe(self, kid, cond, what, **detail):
        """Decision on an input recorded as a known finding (identified by ``kid``)."""
        self.evaluations += 1
        self.decisions["known:" + kid] += 1
        if cond:
            return True
        if (self.pid, kid) in self.known:
            self.known_hit[kid] = self.known[(self.pid, kid)]
        else:
            self._violate("known:" + kid, dict(detail, what=what))
        return False

    def event(self, kind, n=1):
        self.events[kind] += n

    def state(self, *fp):
        """Record a distinct non-trivial state/case fingerprint."""
        self.states.add(_h(*[repr(x) for x in fp]))

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(_short(obj, 1200))

    def note(self, *what):
        """History log of the current case, kept for the witness."""
        if len(self.log) < 400:
            self.log.append(_short(what, 400))

    def _violate(self, key, detail):
        self.vkeys[key] += 1
        if self.vkeys[key] > 3 or len(self.violations) >= 25:
            return
        self.violations.append(
            dict(property=self.pid, key=key, case=list(self.cur or ("?", 0)), seed=self.seed,
                 tier=self.tier, detail=_short(detail, 6000), history=self.log[-60:])
        )

    def raises(self, fn, key, exc=Exception, /, **detail):
        """The call must be refused with an exception."""
        try:
            r = fn()
        except exc:
            self.evaluations += 1
            self.decisions[key] += 1
            return True
        return self.ok(False, key, returned=r, **detail)

    # -- running ------------------------------------------------------------
    def tmp(self):
        d = pathlib.Path(tempfile.mkdtemp(dir=self.scratch))
        return d

    def run_case(self, name, fn, idx):
        import numpy as np
        import torch

        s = _h(self.seed, self.pid, name, idx)
        self.rng = random.Random(s)
        random.seed(s)
        np.random.seed(s % (2 ** 32))
        torch.manual_seed(s % (2 ** 31))
        self.idx = idx
        self.cur = (name, idx)
        self.log = []
        self.cases[name] += 1
        before = self.lines
        # once something did not terminate, do not wait as long again
        self._budget = self.lines + (STEP_LIMIT if not self.vkeys["terminates"] else STEP_LIMIT // 30)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn(self)
        except Stop:
            pass
        except StepLimit:
            self._violate("terminates", dict(what="case executed more than %d dhg lines" % STEP_LIMIT))
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:  # the code under test (or its return value) blew up
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{pathlib.Path(f.filename).name}:{f.lineno}:{f.name}" for f in tb][-6:]
            self._violate("no unexpected exception", dict(error=repr(e), where=where))
        self._budget = float("inf")
        self.max_lines = max(self.max_lines, self.lines - before)
        self.cur = None

    # -- sys.monitoring ------------------------------------------------------
    def attach(self):
        mon = sys.monitoring
        tid = mon.PROFILER_ID
        mon.use_tool_id(tid, "verif")
        root = str(REPO / "dhg") + os.sep
        ev = mon.events

        def on_start(code, off):
            if code.co_filename.startswith(root):
                self.funcs.add(f"{code.co_filename[len(root):]}::{code.co_qualname}")
            return mon.DISABLE

        def on_line(code, line):
            if not code.co_filename.startswith(root):
                return mon.DISABLE
            self.lines += 1
            if self.perturb is not None:
                self.perturb(code, line)
            if self.lines > self._budget:
                self._budget = float("inf")
                raise StepLimit()

        mon.register_callback(tid, ev.PY_START, on_start)
        mon.register_callback(tid, ev.LINE, on_line)
        self._budget = float("inf")
        mon.set_events(tid, ev.PY_START | ev.LINE)


def _short(o, n=800):
    s = o if isinstance(o, str) else repr(o)
    return s if len(s) <= n else s[:n] + "...<%d more>" % (len(s) - n)


def main(argv):
    import importlib

    pid = argv[0]
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    if "--replay" in argv:
        replay = json.loads(pathlib.Path(argv[argv.index("--replay") + 1]).read_text())
        seed, tier = replay["seed"], replay["tier"]

    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    os.environ["HOME"] = scratch
    cwd = os.getcwd()
    os.chdir(scratch)

    live = {}

    def bail(*_):
        # the violations seen so far stand even though the run did not finish
        if live.get("ctx") is not None and live["ctx"].violations:
            rc = report(live["ctx"], live["mod"], time.time() - t0, replay)
            sys.stdout.flush()
            shutil.rmtree(scratch, ignore_errors=True)
            os._exit(rc)
        shutil.rmtree(scratch, ignore_errors=True)
        print("INCONCLUSIVE property=%s wall-clock watchdog fired" % pid, flush=True)
        os._exit(3)

    signal.signal(signal.SIGALRM, bail)
    signal.alarm(840 if tier == "quick" else 3 * 3600)
    try:
        sys.path.insert(0, str(REPO))
        import torch

        torch.set_num_threads(1)
        import dhg

        if not str(pathlib.Path(dhg.__file__).resolve()).startswith(str(REPO)):
            print("INCONCLUSIVE dhg imported from", dhg.__file__)
            return 3
        mod = importlib.import_module("checks." + pid)
        ctx = Ctx(pid, tier, seed)
        ctx.scratch = scratch
        live.update(ctx=ctx, mod=mod)
        ctx.attach()
        total = budget = None
        for name, fn, nq, nt in mod.SCENARIOS:
            n = nt if tier == "thorough" else nq
            if replay is not None:
                if replay["case"][0] == name:
                    ctx.run_case(name, fn, replay["case"][1])
                continue
            for i in range(n):
                ctx.run_case(name, fn, i)
                if len(ctx.violations) >= 25:
                    break
        ctx._budget = float("inf")
        wall = time.time() - t0
        rc = report(ctx, mod, wall, replay)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def report(ctx, mod, wall, replay):
    pid = ctx.pid
    if replay is None:
        inconclusive = []
        if ctx.evaluations == 0 or not ctx.states:
            inconclusive.append("no oracle decision was made")
        for k, least in getattr(mod, "REQUIRED_EVENTS", {}).items():
            if ctx.events[k] < least:
                inconclusive.append(f"event {k!r} observed {ctx.events[k]} < {least} times")
        cov = dict(
            evaluations=ctx.evaluations,
            distinct_nontrivial=len(ctx.states),
            rule=mod.RULE,
            samples=ctx.samples or ["(none)"],
            cases=dict(ctx.cases),
            events=dict(sorted(ctx.events.items())),
            decisions=dict(sorted(ctx.decisions.items())),
            dhg_functions_entered=len(ctx.funcs),
            dhg_functions=sorted(ctx.funcs)[:400],
            dhg_lines_executed=ctx.lines,
            max_dhg_lines_in_one_case=ctx.max_lines,
            known_findings_seen=sorted(ctx.known_hit),
            inconclusive=inconclusive,
        )
        ev = dict(property=pid, tier=ctx.tier, seed=ctx.seed, level="exploration", coverage=cov,
                  assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2),
                  violations=sum(ctx.vkeys.values()))
        (OUT / "evidence").mkdir(exist_ok=True, parents=True)
        (OUT / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for kid, what in sorted(ctx.known_hit.items()):
        print(f"KNOWN-FINDING: property={pid} {kid}: {what}")
    if ctx.violations:
        rd = OUT / "replays"
        rd.mkdir(exist_ok=True, parents=True)
        for n, v in enumerate(ctx.violations):
            p = rd / f"{pid}-s{ctx.seed}-{ctx.tier}-{n}.json"
            if replay is None:
                p.write_text(json.dumps(v, indent=1) + "\n")
            print(f"VIOLATION property={pid} replay={p}")
            print(f"  [{v['key']}] case={v['case']} {_short(v['detail'], 700)}")
        return 1
    if replay is None and inconclusive:
        print("INCONCLUSIVE property=%s %s" % (pid, "; ".join(inconclusive)))
        return 3
    print(f"OK property={pid} tier={ctx.tier} seed={ctx.seed} evaluations={ctx.evaluations} "
          f"states={len(ctx.states)} cases={sum(ctx.cases.values())} wall={wall:.1f}s")
    return 0
