"""Datasets: lazy loading, caching, preprocessing, and the published catalogue."""
import copy
import hashlib
import json
import os
import pathlib
import pickle
import zlib

import numpy as np

from lib.fakenet import serve

RULE = "one state per distinct (dataset definition or catalogue entry, access history)"
CATALOGUE = json.loads((pathlib.Path(__file__).resolve().parent.parent / "lib" / "catalogue.json").read_text())


def md5(b):
    return hashlib.md5(b).hexdigest()


EMPTY = [[], 0, 0.0, "", {}, False, (), b""]       # values that count as false


def lazy(ctx):
    """Random dataset definitions, random access histories."""
    import dhg
    import dhg._global as g
    from dhg.data import BaseData

    rng = ctx.rng
    name = "ds%d" % rng.randrange(10 ** 9)
    root = rng.choice([None, "str", "path"])
    base = g.DATASETS_ROOT if root is None else ctx.tmp()
    files, calls, want, items = {}, [], {}, {}

    def loader(key):
        def load(arg, _k=key):
            paths = arg if isinstance(arg, list) else [arg]
            calls.append((_k, [str(p) for p in paths], isinstance(arg, list)))
            return [pickle.loads(pathlib.Path(p).read_bytes()) for p in paths] if isinstance(arg, list) else pickle.loads(pathlib.Path(arg).read_bytes())
        return load

    content = {}
    for i in range(rng.randint(1, 6)):
        key = "item%d" % i
        r = rng.random()
        if r < 0.25:
            content[key] = rng.choice([7, "text", [1, 2], {"upon": "x"}, {"loader": 1}, 0])
            continue
        if r < 0.3:
            content[key] = {"upon": [], "loader": loader(key)}
            items[key] = None
            continue
        ups, vals = [], []
        for j in range(rng.choice([1, 1, 2, 3]) if rng.random() < 0.93 else rng.choice([6, 12])):
            fn = "f%d_%d.pkl" % (i, j)
            v = [rng.randrange(100) for _ in range(rng.randint(1, 4))] if rng.random() < 0.8 else rng.choice(EMPTY)
            blob = pickle.dumps(v)
            u = {"filename": fn, "md5": md5(blob)}
            if rng.random() < 0.2:
                u["bk_url"] = "https://elsewhere.example/%s/%s" % (name, fn)
            files[u.get("bk_url", g.REMOTE_DATASETS_ROOT + name + "/" + fn)] = blob
            ups.append(u)
            vals.append(v)
        raw = vals[0] if len(vals) == 1 else vals
        cfg = {"upon": ups, "loader": loader(key)}
        out = raw
        if rng.random() < 0.6:
            steps = [rng.choice("abc") for _ in range(rng.randint(1, 3) if rng.random() < 0.85 else rng.choice([5, 9, 20]))]

            def pipe(c, _k=key):
                def f(x):
                    calls.append((_k, "pipe " + c))
                    return (c, copy.deepcopy(x)) if c in "abc" else copy.deepcopy(EMPTY[int(c)])
                return f
            if rng.random() < 0.25:                # preprocessing ends in an empty value
                steps.append(str(rng.randrange(len(EMPTY))))
            cfg["preprocess"] = [pipe(c) for c in steps]
            for c in steps:
                out = (c, out) if c in "abc" else EMPTY[int(c)]
        content[key] = cfg
        items[key] = (raw, out, ups)
    plain = {k: copy.deepcopy(v) for k, v in content.items() if k not in items}

    class DS(BaseData):
        def __init__(self, data_root=None):
            super().__init__(name, data_root)
            self._content = content

    with serve(lambda u, n: ("ok", files[u]) if u in files else ("status", 404)) as net:
        ds = DS() if root is None else DS(str(base) if root == "str" else base)
        ctx.ok(not net.log and not calls, "nothing is loaded before it is asked for")
        ctx.ok(ds.content == list(content), "the content lists every item", got=ds.content)
        ctx.ok(all(k in repr(ds) for k in content) and name in repr(ds), "the representation lists every item", got=repr(ds))
        seen_raw, seen = set(), {}
        for _ in range(rng.randint(3, 14)):
            key = rng.choice(list(content))
            how = rng.choice(["get", "get", "raw", "fetch?"])
            n0, c0 = len(net.log), len(calls)
            ctx.note(how, key)
            if how == "fetch?":
                ctx.ok(ds.needs_to_load(key) == (key in items), "needs_to_load tells files from values", key=key)
                ctx.ok(len(net.log) == n0 and len(calls) == c0, "asking does not load")
                continue
            if key in items and items[key] is None:
                if how == "raw":
                    ctx.ok(ds.raw(key) is None, "an item upon no file is None")
                continue
            v = ds[key] if how == "get" else ds.raw(key)
            if key in plain:
                ctx.ok(v == plain[key], "a plain value is returned as it is", key=key, got=v)
                ctx.ok(len(net.log) == n0, "a plain value needs no file")
                continue
            raw, out, ups = items[key]
            ctx.ok(v == (out if how == "get" else raw), "the loaded (and preprocessed) value", key=key, how=how, got=v, want=out if how == "get" else raw)
            loads = [c for c in calls[c0:] if len(c) == 3]
            ctx.ok(len(loads) == (0 if key in seen_raw else 1), "a file is loaded once", key=key, loads=loads)
            if loads:
                ctx.ok(loads[0] == (key, [str(pathlib.Path(base) / name / u["filename"]) for u in ups], len(ups) > 1),
                       "the loader gets the path, or the list of paths in order", got=loads[0])
            urls = [u.get("bk_url", g.REMOTE_DATASETS_ROOT + name + "/" + u["filename"]) for u in ups]
            ctx.ok([u for u, _ in net.log[n0:]] == ([] if key in seen_raw else urls), "every file is fetched once from its place", got=net.log[n0:], want=urls)
            pipes = [c for c in calls[c0:] if len(c) == 2]
            ctx.ok(not pipes or (how == "get" and key not in seen), "preprocessing runs once", key=key, got=pipes)
            if how == "get":
                if key in seen:
                    ctx.ok(v is seen[key], "the cached value is returned again", key=key)
                seen[key] = v
            seen_raw.add(key)
            ctx.event(how)
        ctx.raises(lambda: ds["nothing"], "an unknown item is refused")
        ctx.raises(lambda: ds.raw("nothing"), "an unknown item is refused")
        # a second object over the same root uses the files on disk
        n0 = len(net.log)
        for k, c in content.items():
            if isinstance(c, dict):
                c.pop("cache", None)
        ds2 = DS() if root is None else DS(base)
        for k in seen_raw:
            ctx.ok(ds2[k] == items[k][1], "another object loads the same value", key=k)
        ctx.ok(len(net.log) == n0, "files on disk are not fetched again", got=net.log[n0:])
    ctx.event("root %s" % root)
    ctx.state(name, sorted(content), sorted(seen_raw))
    ctx.sample({"items": list(content), "log": net.log[:6]})


def fake(kind, rng):
    """A stand-in file for a catalogue item: (bytes, check(value) -> bool)."""
    if kind in ("features", "features_norm1"):
        X = np.array([[rng.choice([0, 0, 1, 2, 5]) for _ in range(5)] for _ in range(6)], float)
        X[2] = 0
        src = X if rng.random() < 0.5 else X.tolist()
        if rng.random() < 0.5:
            import scipy.sparse as sp
            src = sp.csr_matrix(X)
        s = np.abs(X).sum(1, keepdims=True)
        Y = X if kind == "features" else np.divide(X, s, out=np.zeros_like(X), where=s > 0)
        return pickle.dumps(src), lambda v: str(v.dtype) == "torch.float32" and np.allclose(v.numpy(), Y, atol=1e-6)
    if kind == "long":
        y = [rng.randrange(5) for _ in range(9)]
        return pickle.dumps(y if rng.random() < 0.5 else np.array(y)), lambda v: str(v.dtype) == "torch.int64" and v.tolist() == y
    if kind == "bool":
        y = [rng.random() < 0.5 for _ in range(9)]
        return pickle.dumps(y if rng.random() < 0.5 else np.array(y, int)), lambda v: str(v.dtype) == "torch.bool" and v.tolist() == y
    if kind == "txt":
        rows = [[rng.randrange(50) for _ in range(rng.randint(1, 4))] for _ in range(4)]
        return "".join(" ".join(map(str, r)) + "\n" for r in rows).encode(), lambda v: v == rows
    e = [[rng.randrange(9), rng.randrange(9)] for _ in range(5)]
    return pickle.dumps(e), lambda v: v == e


def catalogue(ctx):
    """Every published dataset: constants, files, checksums and types of its items."""
    import dhg.data as D
    import dhg._global as g
    import hashlib as H

    rng = ctx.rng
    names = sorted(CATALOGUE)
    cls = names[ctx.idx % len(names)]
    want = CATALOGUE[cls]
    ctx.need(hasattr(D, cls), "the dataset is published", dataset=cls)
    root = ctx.tmp()
    blobs, served = {}, {}
    for k, v in want["items"].items():
        if isinstance(v, dict):
            blobs[g.REMOTE_DATASETS_ROOT + want["name"] + "/" + v["file"]], served[k] = fake(v["kind"], rng)
    # the stand-in bytes pass for the published files: md5 answers with the published checksum for them
    known = {b: want["items"][k]["md5"] for k in served for u, b in blobs.items() if u.endswith("/" + want["items"][k]["file"])}
    real = H.md5

    class MD5:
        def __init__(self, data=b"", **kw):
            self.d = bytes(data)

        def update(self, x):
            self.d += bytes(x)

        def hexdigest(self):
            return known.get(self.d) or real(self.d).hexdigest()

    with serve(lambda u, n: ("ok", blobs[u]) if u in blobs else ("status", 404)) as net:
        H.md5 = MD5
        try:
            ds = getattr(D, cls)(str(root)) if rng.random() < 0.5 else getattr(D, cls)(data_root=root)
            ctx.ok(not net.log, "constructing a dataset loads nothing")
            ctx.ok(set(want["items"]) <= set(ds.content), "every documented item is provided", dataset=cls, missing=sorted(set(want["items"]) - set(ds.content)))
            keys = list(want["items"])
            rng.shuffle(keys)
            for k in keys:
                v = want["items"][k]
                n0 = len(net.log)
                got = ds[k]
                if isinstance(v, dict):
                    ctx.ok(served[k](got), "the item has its documented type and value", dataset=cls, item=k, got=got)
                    ctx.ok([u for u, _ in net.log[n0:]] == [g.REMOTE_DATASETS_ROOT + want["name"] + "/" + v["file"]], "the item is fetched from its place",
                           dataset=cls, item=k, got=net.log[n0:])
                    ctx.ok((root / want["name"] / v["file"]).exists(), "the file is kept under the data root", dataset=cls, item=k)
                    ctx.event("item " + v["kind"])
                else:
                    ctx.ok(got == v and type(got) is type(v), "documented constant", dataset=cls, item=k, got=got, want=v)
                    ctx.event("constant")
        finally:
            H.md5 = real
    ctx.event("dataset")
    ctx.state(cls, zlib.crc32(repr(sorted(want["items"])).encode()))


def tampered(ctx):
    """A file whose bytes differ from the published ones is never served."""
    import dhg.data as D

    rng = ctx.rng
    cls = rng.choice(sorted(CATALOGUE))
    want = CATALOGUE[cls]
    k = rng.choice([x for x, v in want["items"].items() if isinstance(v, dict)])
    blob, _ = fake(want["items"][k]["kind"], rng)
    root = ctx.tmp()
    ds = getattr(D, cls)(root)
    p = root / want["name"] / want["items"][k]["file"]
    if rng.random() < 0.5:
        p.parent.mkdir(parents=True)
        p.write_bytes(blob)
    with serve(lambda u, n: ("ok", blob)):
        ctx.raises(lambda: ds[k], "bytes with another checksum are refused", dataset=cls, item=k)
        ctx.raises(lambda: ds.raw(k), "bytes with another checksum are refused", dataset=cls, item=k)
    ctx.ok(not p.exists(), "and not kept", dataset=cls, item=k)
    ctx.event("tampered")
    ctx.state("tampered", cls, k)


SCENARIOS = [("lazy", lazy, 150, 3000), ("catalogue", catalogue, len(CATALOGUE), 4 * len(CATALOGUE)), ("tampered", tampered, 40, 400)]
REQUIRED_EVENTS = {"get": 100, "raw": 40, "dataset": len(CATALOGUE), "item long": 20, "item bool": 20, "item features_norm1": 10, "tampered": 20}
ASSUMPTIONS = ["the catalogue snapshot (constants, file names, checksums) was taken from the tree and cross-checked against the class documentation"]
