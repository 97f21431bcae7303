#!/usr/bin/env python3
"""Confirm planted bugs in scratch copies and file them under /verif/seeded (run by hand).

usage: plant.py SPEC.py [id ...]     SPEC.py fills S with (id, property, [(file, old, new), ...], demo, needs, breaks)
"""
import concurrent.futures as cf
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import textwrap

PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
BASE = "185598b"
VERIF = pathlib.Path(__file__).resolve().parent.parent
DEMO = """#!/bin/bash
export PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2
D="$(mktemp -d)"
trap 'rm -rf "$D"' EXIT
export HOME="$D" DEMO_DIR="$D"
/opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, t=900, **env):
    r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=t, env=dict(os.environ, **env))
    return r.returncode, r.stdout + r.stderr


def tests(d):
    x = d / "junit.xml"
    sh([PY, "-m", "pytest", "tests", "--ignore=tests/data", "-q", "-p", "no:cacheprovider", "--timeout=60", "--continue-on-collection-errors", "-o",
        "junit_family=xunit2", "--junitxml=" + str(x)], d, PYTHONPATH=str(d), MPLBACKEND="Agg", OMP_NUM_THREADS="2", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    import xml.etree.ElementTree as E
    ok = set()
    for c in E.parse(x).getroot().iter("testcase"):
        if not list(c.iter("failure")) and not list(c.iter("error")) and not list(c.iter("skipped")):
            ok.add(c.get("classname") + "::" + c.get("name"))
    x.unlink()
    return STABLE - ok


def one(spec):
    sid, prop, edits, demo, needs, breaks = spec
    d = pathlib.Path("/tmp/plantw") / sid
    shutil.rmtree(d, ignore_errors=True)
    d.parent.mkdir(exist_ok=True)
    sh(["cp", "-a", "/repo", str(d)], "/tmp")
    try:
        out = VERIF / "seeded" / sid
        tmp = pathlib.Path("/tmp/plantw") / (sid + ".demo")
        shutil.rmtree(tmp, ignore_errors=True)
        tmp.mkdir()
        (tmp / "demo.sh").write_text(DEMO)
        (tmp / "demo.sh").chmod(0o755)
        (tmp / "demo.py").write_text(textwrap.dedent(demo).lstrip())
        if "import fakedev" in demo:                   # the simulated device goes along with the demo
            shutil.copy(VERIF / "lib" / "fakedev.py", tmp / "fakedev.py")
        rc, o = sh(["bash", str(tmp / "demo.sh")], d, 280)
        if rc:
            return sid, "DEMO FAILS UNCHANGED", o[-800:]
        for f, a, b in edits:
            s = (d / f).read_text()
            if s.count(a) != 1:
                return sid, "EDIT MATCHES %d TIMES" % s.count(a), a
            (d / f).write_text(s.replace(a, b))
        rc, diff = sh(["git", "diff"], d)
        # removed lines must be original
        for f, _, _ in edits:
            _, bl = sh(["git", "blame", "-s", "--abbrev=8", "HEAD", "--", f], d)
            own = {i + 1 for i, l in enumerate(bl.splitlines()) if not l.startswith("^")}
            cur = 0
            on = False
            for l in diff.splitlines():
                if l.startswith("--- "):
                    on = l == "--- a/" + f
                elif l.startswith("@@"):
                    cur = int(l.split()[1][1:].split(",")[0])
                elif on and l.startswith("-"):
                    if cur in own:
                        return sid, "TOUCHES OWN LINE", l
                    cur += 1
                elif on and l.startswith(" "):
                    cur += 1
        rc, o = sh([PY, "-m", "compileall", "-q", "dhg"], d)
        if rc:
            return sid, "DOES NOT COMPILE", o[-400:]
        rc, o = sh(["bash", str(tmp / "demo.sh")], d, 280)
        if rc == 0:
            return sid, "DEMO PASSES PATCHED", o[-400:]
        demo_out = o.strip().splitlines()[-1:] if o.strip() else [""]
        bad = tests(d)
        if bad:
            return sid, "TESTS FAIL", str(sorted(bad)[:4])
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(diff)
        shutil.copy(tmp / "demo.sh", out / "demo.sh")
        for x in tmp.glob("*.py"):
            shutil.copy(x, out / x.name)
        (out / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
        rc, o = sh(["./run.sh", prop, "quick"], VERIF, 900, VERIF_REPO=str(d), VERIF_OUT="/tmp/plantw/%s.out" % sid, VERIF_SEED="1", VERIF_TIER="quick")
        v = [l for l in o.splitlines() if l.startswith("VIOLATION") or l.startswith("  [")][:2]
        return sid, {1: "caught", 0: "MISSED"}.get(rc, "RC %d" % rc), " | ".join([demo_out[0][:160]] + [x[:260] for x in v[1:2]] + ([] if rc in (0, 1) else [o[-300:]]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(pathlib.Path("/tmp/plantw") / (sid + ".out"), ignore_errors=True)


if __name__ == "__main__":
    S = runpy.run_path(sys.argv[1])["S"]
    ids = sys.argv[2:]
    S = [s for s in S if not ids or s[0] in ids]
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, S):
            print(*r, sep=" :: ", flush=True)
