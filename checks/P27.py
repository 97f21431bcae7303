"""File loaders return exactly what the file holds."""
import json
import os
import pickle

RULE = "one state per distinct (file format, content, options)"


ODD = "\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029\xa0\x00\ufeff"         # not line breaks of a text file, but of str.splitlines


def thing(rng, depth=0):
    r = rng.random()
    if depth > 2 or r < 0.5:
        return rng.choice([None, True, 0, -3, 2.5, "text", "ü", "", 10 ** 12])
    if r < 0.75:
        return [thing(rng, depth + 1) for _ in range(rng.randint(0, 4))]
    return {"k%d" % i: thing(rng, depth + 1) for i in range(rng.randint(0, 4))}


def as_path(rng, p):
    return str(p) if rng.random() < 0.5 else p


def pick(ctx):
    from dhg.datapipe import load_from_pickle

    rng = ctx.rng
    p = ctx.tmp() / "x.pkl"
    if rng.random() < 0.4:
        obj = thing(rng)
        p.write_bytes(pickle.dumps(obj, protocol=rng.choice([2, 4, pickle.HIGHEST_PROTOCOL])))
        got = load_from_pickle(as_path(rng, p))
        ctx.ok(got == obj, "the whole object", got=got, want=obj)
        keys = None
    else:
        obj = {"k%d" % i: thing(rng) for i in range(rng.randint(1, 6) if rng.random() < 0.95 else 1100)}
        if rng.random() < 0.2:
            obj[rng.choice(["", "0", "k 1", "a.b"])] = thing(rng)
        p.write_bytes(pickle.dumps(obj))
        keys = rng.sample(sorted(obj), rng.randint(0, len(obj)))
        k = rng.choice(sorted(obj))
        ctx.ok(load_from_pickle(as_path(rng, p), k) == obj[k], "one key gives its value", key=k)
        got = load_from_pickle(as_path(rng, p), keys=keys)
        ctx.ok(got == {x: obj[x] for x in keys}, "a list of keys gives exactly these", got=got, keys=keys)
        ctx.raises(lambda: load_from_pickle(p, "absent"), "an absent key is refused", KeyError)
        ctx.raises(lambda: load_from_pickle(p, ["absent"]), "an absent key is refused", KeyError)
    blob = pickle.dumps({b"a": 1, "b": "c"}, protocol=2)
    p.write_bytes(blob)
    ctx.ok(load_from_pickle(p, encoding="bytes") == pickle.loads(blob, encoding="bytes"), "pickle options are passed on")
    ctx.raises(lambda: load_from_pickle([p, p]), "several files are refused")
    ctx.raises(lambda: load_from_pickle(p.parent / "absent.pkl"), "a missing file is refused")
    ctx.event("pickle")
    ctx.state("pickle", repr(obj), keys)


def js(ctx):
    from dhg.datapipe import load_from_json

    rng = ctx.rng
    p = ctx.tmp() / "x.json"
    obj = thing(rng)
    p.write_text(json.dumps(obj, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 2])), encoding="utf-8")
    got = load_from_json(as_path(rng, p))
    ctx.ok(got == obj and json.dumps(got) == json.dumps(obj), "the document", got=got, want=obj)
    p.write_text('{"x": 1.5}')
    ctx.ok(load_from_json(p, parse_float=str) == {"x": "1.5"}, "json options are passed on")
    ctx.raises(lambda: load_from_json(p.parent / "absent.json"), "a missing file is refused")
    ctx.event("json")
    ctx.state("json", repr(obj))


def txt(ctx):
    from dhg.datapipe import load_from_txt

    rng = ctx.rng
    dtype = rng.choice(["int", "float", "str", "call"])
    lines = rng.choice([0, 1, 3, 12]) if rng.random() < 0.94 else rng.choice([150, 1500, 6000])
    make = {"int": lambda: rng.choice([rng.randint(-99, 10 ** 6), rng.randint(-99, 10 ** 6), rng.randint(2 ** 53, 2 ** 64), -rng.randint(2 ** 53, 2 ** 70)]), "float": lambda: rng.choice([0.5, -2.25, 1e-3, 7.0, rng.uniform(-1, 1), rng.uniform(0, 1e-300), 1e300, 0.1 + 0.2]),
            "str": lambda: rng.choice(["a", "bc", "x_1", "9", "007", "1e3", "naïve", "#5", "None", "用户"] + ["a%sb" % c for c in ODD]), "call": lambda: rng.randint(0, 255)}[dtype]
    wide = rng.random() < 0.05 and lines < 200
    rows = [[make() for _ in range(rng.choice([1, 2, 5]) if not wide else rng.choice([1, 40, 1500] + [5000, 20000] * (lines < 5)))] for _ in range(lines)]
    if dtype == "str" and rng.random() < 0.3:      # an empty value between two others
        for r in rows:
            if len(r) > 2:
                r[1] = ""
    ends = dtype == "str" and rng.random() < 0.3
    sep = rng.choice(["default", "default", ";", ",", ",", "::", r"\|"])
    if ends and sep != "default":      # an empty value at the start or the end of a line of several
        for r in rows:
            if len(r) > 1:
                r[rng.choice([0, -1])] = ""
    show = (lambda v: "%x" % v) if dtype == "call" else str
    seps = [",", " ", "\t"] if sep == "default" else [sep.replace("\\", "")]
    head = rng.choice([0, 0, 1, 3])
    text = "".join("header, line %d%s\n" % (i, "x" * rng.choice([0, 0, 0, 100, 5000, 70000]) if rng.random() < 0.2 else "") for i in range(head))
    body = []
    for r in rows:
        s = show(r[0])
        for v in r[1:]:
            s += rng.choice(seps) + show(v)
        body.append(s)
    end = "\n" if rng.random() < 0.6 else ""
    text += "\n".join(body) + (end if body else "")
    if rng.random() < 0.2:
        text = text.replace("\n", "\r\n")
    p = ctx.tmp() / rng.choice(["x.txt", "x.csv", "data", "ü x.tsv"])
    p.write_bytes(text.encode())
    kw = {}
    if sep != "default":
        kw["sep"] = sep
    if head or rng.random() < 0.3:
        kw["ignore_header"] = head
    got = load_from_txt(as_path(rng, p), dtype=(lambda s: int(s, 16)) if dtype == "call" else dtype, **kw)
    ctx.ok(got == rows and all(type(a) is type(b) for x, y in zip(got, rows) for a, b in zip(x, y)), "one list of cast values per line", got=got, want=rows,
           options=kw, dtype=dtype)
    ctx.raises(lambda: load_from_txt(p, dtype="complex"), "an unknown type is refused")
    ctx.raises(lambda: load_from_txt(p.parent / "absent.txt", dtype="int"), "a missing file is refused")
    ctx.ok(p.read_bytes() == text.encode(), "the file is not modified")
    ctx.event("txt " + dtype)
    ctx.state("txt", text, sorted(kw.items()), dtype)
    ctx.sample({"text": text[:80], "options": kw, "rows": rows[:3]})


def again(ctx):
    """A file written anew (same path, same size, same time stamp) is read anew, and every result is the caller's own."""
    from dhg.datapipe import load_from_json, load_from_pickle, load_from_txt

    rng = ctx.rng
    p = ctx.tmp() / "x"
    kind = ["pickle", "json", "txt"][ctx.idx % 3]

    def write(v):
        if kind == "pickle":
            p.write_bytes(pickle.dumps({"a": v, "b": v[::-1]}))
        elif kind == "json":
            p.write_text(json.dumps(v))
        else:
            p.write_text("\n".join(" ".join(map(str, r)) for r in v))

    def load(v):
        if kind == "pickle":
            keys = rng.choice([None, "a", ["b", "a"]])
            full = {"a": v, "b": v[::-1]}
            return load_from_pickle(as_path(rng, p), keys), (full if keys is None else v if keys == "a" else full)
        if kind == "json":
            return load_from_json(as_path(rng, p)), v
        return load_from_txt(as_path(rng, p), "int"), v

    for _ in range(4):
        v = [[rng.randint(10, 99) for _ in range(3)] for _ in range(4)]
        write(v)
        os.utime(p, (1e9, 1e9))
        for _ in range(2):
            got, want = load(v)
            ctx.ok(got == want, "the file as it is now", kind=kind, got=got, want=want)
            rows = got if isinstance(got, list) else got["a"]
            rows[0][0] = -1
            rows.append("mine")
    ctx.event("read anew")
    ctx.state("again", kind, v)


def handles(ctx):
    """Loading many files leaves no file open."""
    from dhg.datapipe import load_from_json, load_from_pickle, load_from_txt

    d = ctx.tmp()
    (d / "a.pkl").write_bytes(pickle.dumps([1]))
    (d / "a.json").write_text("[1]")
    (d / "a.txt").write_text("1 2\n")
    fds = "/proc/self/fd"
    before = len(os.listdir(fds))
    keep = []
    for _ in range(30):
        keep += [load_from_pickle(d / "a.pkl"), load_from_json(d / "a.json"), load_from_txt(d / "a.txt", "int")]
    ctx.ok(len(os.listdir(fds)) <= before, "files are closed", before=before, after=len(os.listdir(fds)))
    ctx.state("handles")


SCENARIOS = [("pickle", pick, 120, 2000), ("json", js, 100, 2000), ("txt", txt, 250, 5000), ("again", again, 24, 240), ("handles", handles, 1, 2)]
REQUIRED_EVENTS = {"read anew": 20, "pickle": 60, "json": 50, "txt int": 20, "txt float": 20, "txt str": 20, "txt call": 20}
