"""Download and integrity of cached files under network faults."""
import hashlib
import os
import pathlib

from lib.fakenet import serve

RULE = "one state per distinct (fault script, initial cache state, file size, location)"
ATTEMPTS = 3


def md5(b):
    return hashlib.md5(b).hexdigest()


def body(rng):
    return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 7, 1023, 1024, 1025, 3000])))


def bad_of(rng, data):
    r = rng.random()
    if r < 0.4 and data:
        return data[: rng.randrange(len(data))]
    if r < 0.7:
        return data + b"x"
    return bytes([(data[0] + 1) % 256]) + data[1:] if data else b"?"


def place(ctx, g):
    """(path, url, is under the cache root, remote url?)"""
    rng = ctx.rng
    name = "f%d.bin" % rng.randrange(10 ** 9)
    sub = "set%d" % rng.randrange(10 ** 9)
    if rng.random() < 0.5:
        path = g.DATASETS_ROOT / sub / name
    else:
        path = ctx.tmp() / sub / name
    if rng.random() < 0.75:
        url = g.REMOTE_DATASETS_ROOT + sub + "/" + name
    else:
        url = "https://example.org/mirror/" + sub + "/" + name
    return path, url


def faults(ctx):
    """Scripts of HTTP errors, refused connections and corrupted bodies; outcome follows from the script."""
    import requests
    import dhg._global as g
    from dhg.utils import check_file, download_and_check

    rng = ctx.rng
    data = body(rng)
    path, url = place(ctx, g)
    remote = url.startswith(g.REMOTE_DATASETS_ROOT)
    init = rng.choice(["absent", "absent", "valid", "corrupt"])
    legacy = rng.choice([None, None, "valid", "corrupt"])
    lp = pathlib.Path.home() / ".dhg" / path.relative_to(g.CACHE_ROOT) if g.CACHE_ROOT in path.parents else None
    if legacy and lp:
        lp.parent.mkdir(parents=True, exist_ok=True)
        lp.write_bytes(data if legacy == "valid" else bad_of(rng, data))
        other, kept = lp.parent / "another file", rng.random() < 0.5
        if kept:                                   # the legacy directory of this file has others
            other.write_bytes(b"kept")
    else:
        legacy = None
    if init != "absent":
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_bytes(data if init == "valid" else bad_of(rng, data))
        os.utime(path, (10 ** 9, 10 ** 9))
    kinds = ["ok", "ok", "status", "corrupt"] if rng.random() < 0.8 else ["status", "corrupt"]
    plan = [rng.choice(kinds) for _ in range(8)]
    if rng.random() < 0.25 and remote:       # the primary server cannot be reached at all
        plan = ["conn" if i == 0 else x for i, x in enumerate(plan)]
    wire = {"ok": lambda: ("ok", data), "status": lambda: ("status", rng.choice([404, 403, 500, 503])),
            "corrupt": lambda: ("ok", bad_of(rng, data)), "conn": lambda: (rng.choice(["conn", "timeout"]),)}
    # what must happen: primary, then (for our own server) the backup, three attempts, a corrupted file costs one
    state, used, ok, end = init, [], False, None
    legacy_moved = False
    for _ in range(ATTEMPTS):
        end = None
        if state == "absent" and legacy and not legacy_moved:
            state, legacy_moved = legacy, True
        if state == "absent":
            for where in ["primary", "backup"] if remote else ["primary"]:
                act = plan[len(used)]
                used.append(where)
                if act in ("ok", "corrupt"):
                    state = "valid" if act == "ok" else "corrupt"
                    break
                end = "status"
            if state == "absent":
                continue
        if state == "valid":
            ok = True
            break
        state, end = "absent", "corrupt"
    ctx.note(init, legacy, plan, remote)
    with serve(lambda u, n: wire[plan[n] if n < len(plan) else "status"]()) as net:
        try:
            r = download_and_check(url, path, md5(data))
            exc = None
        except Exception as e:
            r, exc = None, e
    urls = [url if w == "primary" else g.BACKUP_REMOTE_DATASETS_ROOT + url[len(g.REMOTE_DATASETS_ROOT):] for w in used]
    info = dict(plan=plan, initial=init, legacy=legacy, remote=remote, log=net.log, error=repr(exc))
    ctx.ok([u for u, _ in net.log] == urls, "primary, then backup, at most three attempts, and nothing else is requested", want=urls, **info)
    if ok:
        ctx.ok(exc is None and r is True, "succeeds when a valid file was delivered in time", **info)
        ctx.ok(path.exists() and path.read_bytes() == data, "the delivered file is byte for byte the expected one", **info)
        ctx.ok(check_file(path, md5(data)) is True, "check_file accepts the file")
    else:
        ctx.ok(exc is not None, "fails when no valid file was delivered", **info)
        ctx.ok(isinstance(exc, ValueError if end == "corrupt" else requests.HTTPError), "failure tells corruption from unreachability", **info)
        ctx.ok(not path.exists(), "a corrupted file is not left in the cache", **info)
    if init == "valid":
        ctx.ok(not net.log and path.stat().st_mtime == 10 ** 9, "a valid cached file is neither requested nor rewritten", **info)
    if legacy_moved:
        ctx.ok(not lp.exists(), "a legacy file is moved, not copied", **info)
        if kept:
            ctx.ok(other.read_bytes() == b"kept", "other legacy files stay", **info)
            other.unlink()
            ctx.event("legacy directory kept")
        ctx.event("legacy " + legacy)
    # the network is healthy again: the next call succeeds
    with serve(lambda u, n: ("ok", data)) as net:
        ctx.ok(download_and_check(url, path, md5(data)) is True and path.read_bytes() == data, "recovers once the network is healthy", **info)
        ctx.ok(len(net.log) == (0 if ok else 1), "a valid cached file is not requested again", log=net.log)
    ctx.event("initial " + init)
    ctx.event("delivered" if ok else "failed " + str(end))
    if "backup" in used:
        ctx.event("backup used")
    ctx.state(init, legacy, remote, plan, len(data), g.CACHE_ROOT in path.parents)
    ctx.sample({"plan": plan[:len(net.log) + 3], "initial": init, "legacy": legacy, "ok": ok})


def broken(ctx):
    """Transfers that break off in the middle, and a killed process, never poison the cache."""
    import dhg._global as g
    from dhg.utils import download_and_check

    rng = ctx.rng
    data = body(rng) + b"end"
    path, url = place(ctx, g)
    for rnd in range(rng.randint(1, 3)):
        plan = [rng.choice(["cut", "crash", "conn", "status", "ok"]) for _ in range(8)]

        def script(u, n):
            k = plan[n % 8]
            return {"cut": ("cut", data[: rng.randrange(len(data))]), "crash": ("crash", data[: rng.randrange(len(data))]), "conn": ("conn",),
                    "status": ("status", 500), "ok": ("ok", data)}[k]

        with serve(script) as net:
            try:
                r = download_and_check(url, path, md5(data))
                ctx.ok(r is True and path.exists() and path.read_bytes() == data, "success means the file is the expected one", plan=plan, log=net.log)
                ctx.event("success under faults")
            except (Exception, KeyboardInterrupt) as e:
                ctx.note("failed", repr(e), net.log)
                ctx.event("failure under faults")
        ctx.ok(len(net.log) <= 2 * ATTEMPTS, "a bounded number of requests", log=net.log)
        ctx.state(plan, rnd, len(data))
    with serve(lambda u, n: ("ok", data)) as net:
        ctx.ok(download_and_check(url, path, md5(data)) is True and path.read_bytes() == data, "recovers once the network is healthy", log=net.log)
        ctx.ok(len(net.log) <= 1, "one healthy request is enough", log=net.log)


def large(ctx):
    """Files of many megabytes: a single changed, missing or additional byte anywhere is noticed."""
    import dhg._global as g
    from dhg.utils import check_file, download_and_check

    rng = ctx.rng
    size = rng.choice([1 << 20, 5 << 20, 9 << 20]) + rng.choice([-1, 0, 1, 12345])
    if ctx.thorough:
        size *= rng.choice([1, 1, 4, 8])
    data = rng.randbytes(size)
    path, url = place(ctx, g)
    with serve(lambda u, n: ("ok", data)) as net:
        ctx.ok(download_and_check(url, path, md5(data)) is True and path.read_bytes() == data, "a large file is stored byte for byte", size=size)
    ctx.ok(len(net.log) == 1, "one request", log=net.log)
    at = rng.choice([0, size - 1, size // 2, rng.randrange(size), size - 1 - rng.randrange(4096)])
    how = rng.choice(["changed", "changed", "truncated", "longer", "removed", "swapped"])
    bad = {"changed": lambda: data[:at] + bytes([data[at] ^ 1]) + data[at + 1:], "truncated": lambda: data[: max(at, size - 4096)], "longer": lambda: data + b"\0",
           "removed": lambda: data[:at] + data[at + 1:], "swapped": lambda: data[size // 2:] + data[: size // 2]}[how]()
    if bad != data:
        path.write_bytes(bad)
        ctx.ok(check_file(path, md5(data)) is False, "a modification of a large file is noticed", how=how, at=at, size=size)
        with serve(lambda u, n: ("ok", data)) as net:
            ctx.ok(download_and_check(url, path, md5(data)) is True and path.read_bytes() == data, "a modified large file is replaced", how=how, at=at, size=size)
        ctx.ok(len(net.log) == 1, "one request", log=net.log)
    path.unlink()
    ctx.event("large")
    ctx.state("large", size, how, at)


def plain(ctx):
    """download_file and check_file on their own."""
    import requests
    from dhg.utils import check_file, download_file

    rng = ctx.rng
    data = body(rng)
    path = ctx.tmp() / "a" / "b" / "c.bin"
    url = "https://example.org/x/c.bin"
    ctx.raises(lambda: check_file(path, md5(data)), "checking a missing file is refused", FileNotFoundError)
    with serve(lambda u, n: ("status", rng.choice([404, 500, 403]))):
        ctx.raises(lambda: download_file(url, path), "an error status is an error", requests.HTTPError)
    ctx.ok(not path.exists(), "an error page is not stored")
    with serve(lambda u, n: ("ok", data)) as net:
        download_file(url, path)
    ctx.ok(path.read_bytes() == data, "the file is stored byte for byte", size=len(data))
    ctx.ok(net.log == [(url, "ok")], "one request", log=net.log)
    ctx.ok(check_file(path, md5(data)) is True, "the right checksum is accepted")
    ctx.ok(check_file(path, md5(data + b"1")) is False and check_file(path, "") is False, "another checksum is not accepted")
    path.write_bytes(bad_of(rng, data))
    ctx.ok(check_file(path, md5(data)) is False, "a changed file is noticed", size=len(data))
    with serve(lambda u, n: ("ok", data)):
        download_file(url, path)
    ctx.ok(path.read_bytes() == data, "an existing file is replaced", size=len(data))
    ctx.event("plain")
    ctx.state("plain", len(data), md5(data))


SCENARIOS = [("faults", faults, 400, 8000), ("broken", broken, 120, 2500), ("plain", plain, 40, 400), ("large", large, 12, 60)]
REQUIRED_EVENTS = {"delivered": 100, "failed status": 6, "failed corrupt": 6, "backup used": 60, "legacy valid": 4, "legacy corrupt": 4,
                   "initial valid": 40, "initial corrupt": 40, "success under faults": 10, "failure under faults": 10, "plain": 20, "large": 6}
ASSUMPTIONS = ["the network is replaced below requests' adapter layer; TLS and sockets are outside the monitor",
               "exact attempt accounting is asserted only for faults that leave no partial file"]
