"""Scenarios for the client side, the mock transports and the tee writer (C13-C16, C20)."""
import gen_bulk
import models
from gen_server import HARD, fill, frags

NAMES = ["a", "b", "", "field", "with space", "x-1", "n.m", "\u00fc\u20ac", "name", "filename", "a=b", "a:b", "long" * 12, "[0]", "a&b", "c/d", "p%41", "it's",
         " lead", "trail ", " ", "back\\slash", "end\\", "semi;colon", "; filename=x", "\U0001f600", "\u00a0nb\u00a0", "a[]", "%22", "&quot;", "A", "\u2028"]
FILES = {"f.txt": "text/plain", "g.png": "image/png", "h": "application/octet-stream", "data.csv": "text/csv", "i.html": "text/html",
         "two words.txt": "text/plain", "\u00fc.jpg": "image/jpeg", "x.unknownext": "application/octet-stream", "j.json": "application/json",
         "archive.tar.gz": "application/gzip", "UPPER.PNG": "image/png",
         "notes.md": "text/markdown", ".hidden": "application/octet-stream", "trailing.": "application/octet-stream",
         "old.txt~": "application/octet-stream", "pic.jpeg.pdf": "application/pdf", "c.svg": "image/svg+xml", "back\\slash.txt": "text/plain",
         " lead.txt": "text/plain", "trail.txt ": "application/octet-stream", "%41.txt": "text/plain", "semi;colon.txt": "text/plain", "m.mp4": "video/mp4"}
CTYPES = ["text/plain", "image/png", "application/octet-stream", "text/html; charset=utf-8", "application/x-foo", "audio/mpeg",
          "image/*", "*/*", "image/svg+xml", "multipart/mixed; boundary=inner", "text/plain; charset=us-ascii; format=flowed", "application/vnd.ms-excel"]
SIZES = [0, 0, 1, 2, 3, 7, 20, 64, 150]


EDGES = [b"", b"\0", b" ", b"\t", b"\n", b"\r\n", b"\0\0", "\ufeff".encode(), "\u00a0".encode(), b"\x7f", b"-", b"\"", b";"]


def data(r, text=False, n=None, big=0.08):
    n = r.choice(SIZES) if n is None else n
    if n and r.random() < big:
        n = r.choice([500, 1000, 1024, 1030, 2100])
    k = r.random()
    if text:
        if k < 0.6:
            return fill(r, n)
        if k < 0.7:  # nothing is trimmed
            return r.choice(EDGES) + fill(r, n) + r.choice(EDGES)
        if k < 0.85:
            return ("".join(r.choice(["\u00e9", "\u20ac", "\U0001f600", "x", "\r\n", "--", "\n"]) for _ in range(min(n, 20)))).encode()
        return b"".join(r.choice([b"\r\n", b"--", b"\r\n--", b"-", b"\r", b"\n", b"q"]) for _ in range(min(n, 12)))
    if k < 0.5:
        return fill(r, n)
    if k < 0.8:
        return b"".join(r.choice(frags("0000")) for _ in range(r.randint(0, 6)))
    return bytes(r.randrange(256) for _ in range(n))


def src_script(r, n, intr=0.3):
    out, s = [], 0
    if r.random() < 0.4:
        return out
    while s < n + 2 and len(out) < 60:
        if r.random() < intr:
            out.append({"e": "Interrupted"})
        k = r.choice([1, 1, 2, 3, 5, 10, 40])
        out.append({"n": k})
        s += k
    return out


def fld(r, t=None, name=None, **kw):
    t = t or r.choice(["text", "text", "file", "stream", "stream"])
    f = {"t": t, "name": name if name is not None else r.choice(NAMES), "filename": None, "ctype": None, "src": [], "tail": None, "missing": False}
    if t == "text":
        f["data"] = list(kw.pop("data", None) or data(r, True))
    else:
        f["data"] = list(kw.pop("data", None) or data(r))
    if t == "file":
        f["filename"] = r.choice(list(FILES))
        f["want"] = FILES[f["filename"]]
        f["link"] = r.random() < 0.2
    if t == "stream":
        f["filename"] = r.choice([None, None, "f.bin", "up load.txt", "\u00fc.x", "..", "a/b", "C:\\dir\\f.txt", "end\\", " x ", "", "%22.txt", "semi;colon.txt"])
        f["ctype"] = r.choice([None, None] + CTYPES)
        f["src"] = src_script(r, len(f["data"]))
    f.update(kw)
    return f


def bl(s):
    return list(s.encode())


def sc(i, mode, fields, **kw):
    spec = {"mode": mode, "fields": [], "rounds": kw.get("rounds", [])}
    for f in fields:
        ct = f.get("want") if f["t"] == "file" else f["ctype"]
        spec["fields"].append({"t": f["t"], "name": bl(f["name"]), "data": f["data"], "missing": f["missing"],
                               "filename": [bl(f["filename"])] if f["filename"] is not None else [],
                               "ctype": [bl(ct)] if ct is not None else []})
    d = {"id": i, "kind": "client", "mode": mode, "fields": fields, "spec": spec, "sink": [], "sinktail": None}
    d.update(kw)
    return d


def short_writes(r):
    k = r.random()
    if k < 0.3:
        return []
    if k < 0.45:
        return [{"n": 1}] * 400
    out = []
    for _ in range(r.randint(5, 120)):
        if r.random() < 0.12:
            out.append({"e": "Interrupted"})
        out.append({"n": r.choice([1, 1, 2, 3, 5, 8, 20, 100])})
    return out


def some(r, kinds=None, n=None, distinct=False):
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 6]) if n is None else n
    out = []
    for k in range(n):
        out.append(fld(r, r.choice(kinds) if kinds else None, name="u%d" % k if distinct else None))
    return out


def big_fields(r):
    out = some(r, n=r.choice([0, 1, 2]))
    for _ in range(r.choice([1, 1, 2])):
        n = r.choice([4095, 4096, 8191, 8192, 8193, 9000, 16384, 20000, 33000, 40000])
        f = fld(r, data=fill(r, n))
        f["src"] = [{"n": r.choice([1, 100, 3000, 8192, 9000])} if r.random() < 0.8 else {"e": "Interrupted"} for _ in range(r.randint(0, 10))]
        out.insert(r.randint(0, len(out)), f)
    return out


def huge_fields(r, n):
    """one stream of many buffers' size, and something after it"""
    f = fld(r, "stream", data=fill(r, n))
    f["src"] = r.choice([[], [{"n": 8192}] * 3, [{"n": 65536}], [{"e": "Interrupted"}, {"n": 30000}]])
    return [f, fld(r, "text")]


def many_fields(r, kinds=None):
    """tens of small fields"""
    out = []
    for k in range(r.choice([9, 17, 18, 33, 40, 70])):
        t = r.choice(kinds or ["stream", "stream", "text", "file"])
        out.append(fld(r, t, name=r.choice(["a", "n%d" % k]), data=data(r, t == "text", n=r.choice([0, 1, 2]))))
        out[-1]["src"] = []
    return out


def bufs(r):
    k = r.random()
    if k < 0.2:
        return [1]
    if k < 0.4:
        return [r.choice([2, 3, 5, 7, 13, 16, 100, 1000, 8192])]
    return [r.choice([0, 1, 1, 2, 3, 5, 8, 20, 50, 200]) for _ in range(r.randint(2, 30))] + [r.choice([1, 3, 10, 64, 4096])]


def c13(r, scale=1.0):
    out = []
    n = int(330 * scale)
    for i in range(n):
        mode = r.choice(["eager"] * 5 + ["sized"] * 3 + ["mock", "mocksized", "hyper", "hypersized"])
        fs = some(r)
        out.append(sc("c13-%d-%s" % (i, mode), mode, fs, sink=short_writes(r) if mode in ("eager", "sized") else []))
    for mode in ["eager", "sized", "mock", "mocksized", "hyper", "hypersized"]:
        out.append(sc("c13-empty-" + mode, mode, [], sink=[{"n": 1}] * 60))
        for t in ["text", "file", "stream"]:
            for d in [b"", b"x", b"\r\n", b"\r\n--", b"--", b"\r"]:
                f = fld(r, t)
                f["data"] = list(d)
                out.append(sc("c13-%s-%s-%s" % (mode, t, d.hex()), mode, [f, fld(r, "text")], sink=short_writes(r)))
    for n, mode in [(65535, "eager"), (65537, "sized"), (100000, "eager"), (131073, "hyper"), (70000, "mock"), (66000, "hypersized")]:
        out.append(sc("c13-huge-%d-%s" % (n, mode), mode, huge_fields(r, n)))
    # more than the copying and buffering steps take at once
    for i in range(int(16 * scale)):
        mode = r.choice(["eager", "eager", "sized", "mock", "hyper", "hypersized"])
        out.append(sc("c13-big-%d-%s" % (i, mode), mode, big_fields(r), sink=[{"n": r.choice([1, 100, 4096, 8191, 8192, 9000])} for _ in range(r.randint(0, 20))]
                      if mode in ("eager", "sized") else []))
    for i in range(int(8 * scale)):
        mode = r.choice(["eager", "sized", "mock", "hyper", "hypersized"])
        out.append(sc("c13-many-%d-%s" % (i, mode), mode, many_fields(r)))
    out += gen_bulk.huge_send(r, ["eagerstream", "eagerfile"]) + gen_bulk.huge_send(r, ["eagertext", "sizedtext", "sizedstream", "sizedfile"], [1, 2, 3, 17, 40])
    return out + models.client_walks(r, "Client-walk", int(120 * scale))


def c14(r, scale=1.0):
    out = []
    n = int(420 * scale)
    for i in range(n):
        k = r.random()
        kinds = ["stream"] if k < 0.25 else ["file", "text"] if k < 0.5 else ["file"] if k < 0.6 else ["text"] if k < 0.7 else None
        mode = r.choice(["prepared"] * 8 + ["lazy", "lazy", "hyperlazy", "hyperclient"])
        out.append(sc("c14-%d-%s" % (i, mode), mode, some(r, kinds), bufs=bufs(r), sink=short_writes(r)))
    for mode in ["prepared", "lazy", "hyperlazy", "hyperclient"]:
        for b in [1, 2, 3, 4096]:
            out.append(sc("c14-empty-%s-%d" % (mode, b), mode, [], bufs=[b]))
            for t in ["text", "file", "stream"]:
                f = fld(r, t)
                f["data"] = []
                out.append(sc("c14-none-%s-%s-%d" % (mode, t, b), mode, [f, fld(r)], bufs=[b]))
    # interruptions at the very start and the very end of each stream
    for i in range(int(40 * scale)):
        fs = some(r, ["stream"], n=r.randint(1, 3))
        for f in fs:
            n = len(f["data"])
            f["src"] = [{"e": "Interrupted"}] * r.randint(0, 2) + ([{"n": n}] if n else []) + [{"e": "Interrupted"}] * r.randint(0, 3)
        out.append(sc("c14-intr-%d" % i, r.choice(["prepared", "prepared", "lazy"]), fs, bufs=bufs(r)))
    for n, mode in [(65537, "prepared"), (100000, "lazy"), (131073, "prepared"), (70000, "hyperlazy"), (66000, "hyperclient")]:
        out.append(sc("c14-huge-%d-%s" % (n, mode), mode, huge_fields(r, n), bufs=[r.choice([8192, 65536, 100000])]))
    for i in range(int(16 * scale)):
        mode = r.choice(["prepared", "prepared", "lazy", "hyperlazy", "hyperclient"])
        out.append(sc("c14-big-%d-%s" % (i, mode), mode, big_fields(r), bufs=[r.choice([1, 1000, 8191, 8192, 8193, 20000]) for _ in range(r.randint(1, 6))] + [r.choice([5000, 8192, 65536])],
                      sink=[{"n": r.choice([1, 100, 4096, 8191, 8192, 9000])} for _ in range(r.randint(0, 20))] if mode == "lazy" else []))
    # streams that fail and go on
    for i in range(int(90 * scale)):
        fs = some(r, r.choice([None, ["stream"], ["stream", "text"]]), n=r.randint(1, 3))
        for f in r.sample([f for f in fs if f["t"] == "stream"] or [fs.append(fld(r, "stream")) or fs[-1]], 1):
            f["src"] = src_script(r, len(f["data"]), 0.1)
            for _ in range(r.choice([1, 1, 2, 3])):
                e = {"e": r.choice(HARD + ["WouldBlock"] * 8)}
                f["src"].insert(r.randint(0, len(f["src"])), e)
        out.append(sc("c14-hard-%d" % i, "prepared", fs, bufs=bufs(r)))
    for i in range(int(60 * scale)):
        out.append(again(r, "c14-again-%d" % i))
    for i in range(int(12 * scale)):
        mode = r.choice(["prepared", "prepared", "lazy", "hyperlazy", "hyperclient"])
        out.append(sc("c14-many-%d-%s" % (i, mode), mode, many_fields(r, r.choice([None, ["stream"], ["text"], ["file", "text"]])), bufs=[r.choice([50, 333, 4096])]))
    out += gen_bulk.huge_send(r, ["lazystream", "prepfile"]) + gen_bulk.huge_send(r, ["lazytext", "preptext", "prepstream", "lazyfile"] * 2, [1, 2, 3, 17, 40])
    return out + models.client_walks(r, "Client-walk", int(160 * scale))


def again(r, i, **kw):
    """the same lazy Multipart makes several requests; what was prepared may be given up"""
    mode = r.choice(["prepared", "prepared", "lazy"])
    rounds, fs = [], []
    for k in range(r.choice([2, 2, 3])):
        part = some(r, r.choice([None, ["text"], ["file", "text"], ["stream"], ["file", "file", "stream"]]), n=r.choice([0, 1, 1, 2, 3]))
        rounds.append(len(part))
        fs += part
    if mode == "prepared":
        kw["bufs"] = [bufs(r) for _ in rounds]
        kw["stops"] = [r.choice([None, None, None, 0, 1, 2, 5]) for _ in rounds]
    else:
        kw["sink"] = short_writes(r)
    return sc(i, mode, fs, rounds=rounds, **kw)


def mutate(set_, fs):
    """what the closure given to client_request_mut sets; a length only where the body has one of
    its own (the other case is the known finding c15-known-length-stream)"""
    return [x for x in set_ if x != "length" or all(f["t"] != "stream" for f in fs)]


def c15(r, scale=1.0):
    out = []
    n = int(300 * scale)
    for i in range(n):
        mode = r.choice(["eager", "sized", "sized", "mock", "mocksized", "lazy", "prepared", "prepared", "hyper", "hypersized", "hyperlazy", "hyperclient"])
        kinds = None if r.random() < 0.4 else ["text", "file"]
        kw = {}
        if mode in ("eager", "sized", "lazy") and r.random() < 0.25:
            kw["refuse"] = True
        if mode == "hypersized" and r.random() < 0.3:
            kw["method"] = "GET"
        if mode == "hyperclient":
            kw["mutate"] = r.sample(["type", "length", "body", "other"], r.randint(0, 4))
        fs = some(r, kinds)
        if mode == "hyperclient":
            kw["mutate"] = mutate(kw["mutate"], fs)
        out.append(sc("c15-%d-%s" % (i, mode), mode, fs, bufs=bufs(r), sink=short_writes(r) if mode in ("eager", "sized", "lazy") else [], **kw))
    for i in range(int(16 * scale)):
        mode = r.choice(["sized", "mocksized", "lazy", "prepared", "hypersized", "hypersized", "hyperlazy", "hyperclient", "hyperclient"])
        fs = big_fields(r)
        if r.random() < 0.6:
            for f in fs:
                if f["t"] == "stream":
                    f.update(fld(r, "file", data=f["data"]))
        out.append(sc("c15-big-%d-%s" % (i, mode), mode, fs, bufs=[r.choice([8192, 65536])]))
    for k in range(3):
        out.append(sc("c15-many-%d" % k, "many", [], n=300))
        out.append(sc("c15-threads-%d" % k, "many", [], n=320, threads=[2, 8, 16][k]))
    for i in range(int(40 * scale)):
        out.append(again(r, "c15-again-%d" % i))
    for t in [["text"], ["file"], ["stream"], ["text", "file"], ["text", "stream"], ["file", "stream"], []]:
        for mode in ["prepared", "lazy", "hyperlazy", "hyperclient", "sized", "mocksized", "eager"]:
            fs = [fld(r, x) for x in t]
            for f in fs:
                f["data"] = list(fill(r, 20))
            out.append(sc("c15-kinds-%s-%s" % (mode, "-".join(t)), mode, fs, bufs=[50], **({"mutate": mutate(["type", "length", "body"], fs)} if mode == "hyperclient" else {})))
    # requests which already carry headers about another body
    for stale in [["type"], ["length"], ["type", "length"], ["other"], ["type", "length", "other"]]:
        for mode in ["hyper", "hypersized", "hyperlazy"]:
            for t in [["text"], ["file"], ["text", "file", "text"], ["stream", "text"], []]:
                # where no length is known the one which is there stays, as in c15-known-length-stream
                if "length" in stale and (mode == "hyper" or (mode == "hyperlazy" and "stream" in t)):
                    continue
                fs = [fld(r, x) for x in t]
                for f in fs:
                    f["data"] = list(fill(r, r.choice([0, 3, 20, 300])))
                out.append(sc("c15-stale-%s-%s-%s" % ("-".join(stale), mode, "-".join(t)), mode, fs, bufs=[50], stale=stale))
    # a length set by the caller's closure stays when the body has none (see known_findings.txt)
    out.append(sc("c15-known-length-stream", "hyperclient", [{"t": "stream", "name": "s", "data": list(b"0123456789abcdef"), "filename": None, "ctype": None, "src": [], "tail": None, "missing": False}], bufs=[50], mutate=["length"]))
    for mode in ["eager", "sized", "lazy"]:
        for nf in [0, 1, 2]:
            out.append(sc("c15-refuse-%s-%d" % (mode, nf), mode, some(r, n=nf), refuse=True))
    for i in range(int(16 * scale)):
        mode = r.choice(["eager", "sized", "prepared", "prepared", "lazy", "hypersized", "hyperlazy", "hyperclient", "hyperclient"])
        out.append(sc("c15-many-%d-%s" % (i, mode), mode, many_fields(r, r.choice([None, ["stream"], ["text"], ["file"], ["file", "text"]])), bufs=[4096]))
    out += gen_bulk.huge_send(r, ["lazyfile"]) + gen_bulk.huge_send(r, ["lazytext", "preptext", "prepfile", "sizedtext", "sizedstream", "eagertext"], [1, 2, 3, 17, 40])
    return out + models.client_walks(r, "Client-walk-errors", int(80 * scale))


def hard(r):
    return r.choice(HARD)


def c16(r, scale=1.0):
    out = []
    n = int(300 * scale)
    for i in range(n):
        mode = r.choice(["eager", "eager", "eager", "sized", "sized", "lazy", "lazy", "prepared"])
        fs = some(r, n=r.choice([0, 1, 1, 2, 3]))
        kw = {}
        how = r.choice(["sink", "sink", "sinktail", "src", "src", "open", "fin", "flush", "missing", "missing", "none"])
        if how == "sink":
            s = short_writes(r) or [{"n": r.choice([1, 5, 30, 100])}]
            s = s[:r.randint(0, len(s))]
            kw["sink"] = s + [r.choice([{"e": hard(r)}, {"e": hard(r)}, {"n": 0}])]
        elif how == "sinktail":
            kw["sink"] = short_writes(r)[:r.randint(0, 30)] + [{"n": r.randint(1, 300)}]
            kw["sinktail"] = r.choice([hard(r), "WriteZero"])
        elif how == "src":
            ss = [f for f in fs if f["t"] == "stream"]
            if not ss:
                f = fld(r, "stream")
                fs.insert(r.randint(0, len(fs)), f)
                ss = [f]
            f = r.choice(ss)
            if r.random() < 0.5:
                f["tail"] = hard(r)
            else:
                k = f["src"] or [{"n": r.choice([1, 10])}]
                f["src"] = k[:r.randint(0, len(k))] + [{"e": hard(r)}]
        elif how == "open":
            kw["openfail"] = hard(r)
        elif how == "fin":
            kw["finfail"] = hard(r)
        elif how == "flush":
            kw["flushfail"] = hard(r)
        elif how == "missing":
            for k in range(r.choice([1, 1, 2])):
                fs.insert(r.randint(0, len(fs)), fld(r, "file", name="gone%d" % k, missing=True))
        if i % 40 == 7:
            fs += many_fields(r, ["file", "text"] if how == "missing" else None)
        if r.random() < 0.3:
            kw["goon"] = True
        out.append(sc("c16-%d-%s-%s" % (i, mode, how), mode, fs, bufs=bufs(r), **kw))
    # a failure at every byte of a small request
    for mode in ["eager", "sized", "lazy"]:
        fs = [fld(r, "text", name="a", data=b"xy"), fld(r, "stream", name="b", data=b"z")]
        if mode == "lazy":
            fs = [fld(r, "text", name="a", data=b"xy"), fld(r, "file", name="b", data=b"z")]
        for f in fs:
            f["src"] = []
            if f["t"] == "stream":
                f["filename"], f["ctype"] = ("f.x", "a/b") if mode == "eager" else (None, None)
        for k in list(range(0, 330, max(1, int(3 / scale)) if mode != "eager" else 1)):
            out.append(sc("c16-at-%s-%d" % (mode, k), mode, fs, sink=([{"n": 1}] * k) + [{"e": "BrokenPipe"}], goon=k % 2 == 0))
    return out + models.client_walks(r, "Client-walk-errors", int(240 * scale))


def c20(r, scale=1.0):
    out = []
    for i in range(int(250 * scale)):
        pre = list(data(r)) if r.random() < 0.2 else []
        bnd = r.choice(["bnd", "B", "x" * 70, "a-b"])
        ln = r.choice([None, 0, 1, 77, 4000000])
        ws = []
        for _ in range(r.randint(0, 8)):
            ws.append({"b": list(data(r, n=r.choice([0, 1, 1, 2, 3, 5, 20, 60]))), "all": r.random() < 0.4})
        if i % 12 == 0:
            ws = ws[:3]
            ws.insert(r.randint(0, len(ws)), {"b": list(fill(r, r.choice([1025, 4096, 4097, 8193, 16385, 20000]))), "all": r.random() < 0.3})
        reads = [r.choice([0, 1, 1, 2, 3, 7, 30, 100, 1000, 8192, 8193, 20000]) for _ in range(r.randint(1, 12))]
        out.append({"id": "c20-mock-%d" % i, "kind": "mock", "pre": pre, "bnd": bnd, "len": ln, "writes": ws, "reads": reads,
                    "direct": r.random() < 0.15, "spec": {"pre": pre, "mbnd": bl(bnd), "len": [] if ln is None else [ln]}})
    # reads which fill their buffer exactly, of sizes one would choose, and what follows them
    for n in [1, 2, 16, 64, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768]:
        for k in (0, 1):
            out.append({"id": "c20-mock-exact-%d-%d" % (n, k), "kind": "mock", "pre": list(fill(r, 2 * n + r.choice([0, 1, 7]))) if k else [], "bnd": "B", "len": None,
                        "writes": [{"b": list(fill(r, x)), "all": bool(r.getrandbits(1))} for x in (n, n, r.choice([0, 1, 7]))],
                        "reads": [n] * 5, "direct": False, "spec": {"pre": [], "mbnd": bl("B"), "len": []}})
            out[-1]["spec"]["pre"] = out[-1]["pre"]
        # everything that is there in one read, most of the time
        out.append({"id": "c20-mock-whole-%d" % n, "kind": "mock", "pre": list(fill(r, n)), "bnd": "B", "len": None, "writes": [], "reads": [100000, 100, 100],
                    "direct": False, "spec": {"pre": [], "mbnd": bl("B"), "len": []}})
        out[-1]["spec"]["pre"] = out[-1]["pre"]
    # more than 16 bits can count
    n = r.randint(65537, 80000)
    out.append({"id": "c20-mock-large", "kind": "mock", "pre": [], "bnd": "B", "len": None, "writes": [{"b": [120] * n, "all": k == 1} for k in range(2)],
                "reads": [r.choice([65536, 65540, 70000, 100000])] * 3, "direct": False, "spec": {"pre": [], "mbnd": bl("B"), "len": []}})
    for i in range(int(200 * scale)):
        ws = []
        for _ in range(r.randint(0, 8)):
            d = data(r, n=r.choice([0, 1, 2, 3, 5, 20, 60]))
            if r.random() < 0.4:
                d = d[:len(d) // 2] + b"\n" + d[len(d) // 2:]
            ws.append({"b": list(d), "all": r.random() < 0.5})
        if r.random() < 0.25:  # more than standard output buffers, before and after a line break
            d = fill(r, r.choice([1000, 1023, 1024, 1025, 1500, 2100, 3000]))
            k = r.choice([0, 1, 5, len(d) // 2, len(d) - 1, len(d)])
            if r.random() < 0.8:
                d = d[:k] + b"\n" + d[k:]
            ws.insert(r.randint(0, len(ws)), {"b": list(d), "all": r.random() < 0.6})
        fa = r.choice([0, 0, 0, 0, 1, 2, 3, 5, 9])
        mx = [r.choice([1, 1, 2, 3, 5, 100]) for _ in range(r.randint(1, 5))] if r.random() < 0.8 else [10000]
        ff = r.random() < 0.2
        out.append({"id": "c20-tee-%d" % i, "kind": "tee", "max": mx, "failat": fa, "writes": ws, "hold": r.random() < 0.4,
                    "flushfail": ff, "spec": {"failat": fa, "flushfail": ff}})
    return out


GENERATORS = {"C13": c13, "C14": c14, "C15": c15, "C16": c16, "C20": c20}
