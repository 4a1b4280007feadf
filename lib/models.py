"""Model checking the implementation-shaped models, and behaviours of theirs for replaying."""
import json, os, random, re
import run

SPEC = os.path.join(run.V, "spec")


def m(name, module, quick=True, deep=True):
    """spec/models/NAME.cfg, and NAME-deep.cfg in the thorough tier"""
    return {"name": name, "module": module, "quick": quick, "deep": deep}


READER = {k: m("Reader-" + k, "ReaderImpl") for k in ("base", "cut", "errors", "buffer", "returns")}
READER["two"] = m("Reader-two", "ReaderImpl", quick=False)
SAVE = {k: m("Save-" + k, "SaveImpl") for k in ("base", "wide", "errors", "returns")}
ENTRIES = {k: m("Entries-" + k, "EntriesImpl", deep=k != "returns") for k in ("base", "errors", "returns")}

CLIENT = {k: m("Client-" + k, "ClientImpl", deep=k != "returns") for k in ("base", "errors", "returns")}
CLIENT["again"] = m("Client-again", "ClientImpl")
CLIENT["three"] = m("Client-three", "ClientImpl", quick=False)

DIRS = {"base": m("SaveDir-base", "SaveDirImpl")}
ICEPT = {k: m("Intercept-" + k, "InterceptImpl", deep=k != "returns") for k in ("base", "returns")}
NOTE = {k: m("HeaderNotation-" + k, "HeaderNotation") for k in ("base", "values", "flaws")}
TYPE = {k: m("TypeNotation-" + k, "TypeNotation", deep=k == "params") for k in ("near", "params")}
MOCK = {"base": m("Mock-base", "MockImpl")}


def check(m, tier):
    """-> [{name, states, transitions}]; raises if the design breaks the contract"""
    names = []
    if m["quick"] and (tier == "quick" or not m["deep"]):
        names.append(m["name"])
    if tier != "quick" and m["deep"]:
        names.append(m["name"] + "-deep")
    out = []
    for n in names:
        rc, o = run.java(m["module"] + ".tla", os.path.join("models", n + ".cfg"), workers=run.NPROC, heap="6g", timeout=800)
        s = run.stats(o)
        if rc != 0 or "No error has been found" not in o or not s or s[2] != 0:
            raise run.ToolError("model %s does not hold: %s" % (n, o[-3000:]))
        out.append({"name": n, "states": s[1], "transitions": s[0]})
    return out


def walks(module, cfg, num, seed, depth=300):
    """Random behaviours: the records the model printed."""
    rc, o = run.java(module + ".tla", os.path.join("models", cfg + ".cfg"), workers=1, heap="3g", timeout=300,
                     args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    if "Error:" in o:
        raise run.ToolError("model %s does not hold: %s" % (cfg, o[-3000:]))
    out, seen = [], set()
    for l in o.split("\n"):
        l = l.strip()
        if l.startswith('"WALK ') and l not in seen:
            seen.add(l)
            out.append(json.loads(json.loads(l)[5:]))
    if not out:
        raise run.ToolError("no behaviours from %s: %s" % (cfg, o[-2000:]))
    return out


# ---------------------------------------------------------------------------------------------------
# ReaderImpl: a byte 72 or 73 stands for a header block, 66 for the boundary, the first field's data gets
# a thousand bytes of filler in front (the reader fetches that much with the headers), which the caller
# reads first, with the smallest window.

def reader_walk(r, w, i):
    from gen_server import fill, head, sc
    bnd = r.choice(["B", "B", "B", "Bq", "B-b"])
    h = {72: head("H"), 73: head("I")}
    b, rec = bytes(w["b"]), w["rec"]
    first = b.find(b"H\r\n\r\n")
    pos, out = [0], b""
    for k, c in enumerate(b):
        out += h[c] if c in h else bnd.encode() if c == 66 else bytes([c])
        if first >= 0 and k == first + 4:
            pad = fill(r, 1024)
            out += pad
        pos.append(len(out))
    src, ops, top, entries = [], [], 0, 0
    for e in rec:
        t, n = e["t"], e["n"]
        if t == "n":
            if pos[n] > top:
                src.append({"n": pos[n] - top})
                top = pos[n]
        elif t in ("Interrupted", "Other"):
            src.append({"e": t})
        elif t == "next":
            ops.append({"op": "next"})
            entries += 1
            if entries == 1 and first >= 0:
                ops += [{"op": "setmin", "n": 8}, {"op": "skip", "n": 1024}]
        elif t in ("read", "consume", "setmin"):
            ops.append({"op": t, "n": 4096 if n == 99 else n})
        else:
            ops.append({"op": t})
    if len(out) > top:
        src.append({"n": len(out) - top})
    return sc("walk-%d" % i, out, bnd, src, ops, r.choice(["borrow", "borrow", "owned", "cont", "inplace"]), extra=3)


def reader_walks(r, cfg, num):
    return [reader_walk(r, w, i) for i, w in enumerate(walks("ReaderWalk", cfg, num, r.randrange(1 << 30)))]


# ---------------------------------------------------------------------------------------------------
# SaveImpl: the field's data, each byte repeated or not, behind a kilobyte that the caller skips with the
# smallest window; limits and portions lie where the behaviour has them.

def save_walk(r, w, i):
    from gen_server import fill, head, sc
    wide = r.choice([1, 1, 9])
    data, pos = b"", [0]
    for c in w["d"]:
        data += bytes([c]) * (wide if c < 128 else 1)
        pos.append(len(data))
    bnd = r.choice(["B", "Bq"])
    h = b"--" + bnd.encode() + b"\r\n" + head("a", None, r.choice([None, None, "text/plain", "image/png"]))
    pad = fill(r, 1024)
    b = h + pad + data + b"\r\n--" + bnd.encode() + b"--\r\n"
    base = len(h) + 1024
    src, ops, top = [{"n": base}], [{"op": "next"}, {"op": "setmin", "n": 8}, {"op": "skip", "n": 1024}], base
    lim = lambda l: l if l < 0 else pos[l] if l < len(pos) else len(data) + l - len(pos) + 1
    for e in w["rec"]:
        t, n = e["t"], e["n"]
        if t in ("n", "wfail"):
            if base + pos[n] > top:
                src.append({"n": base + pos[n] - top})
                top = base + pos[n]
            if t == "wfail":
                got = pos[e["got"]] - at
                ops[-1]["w"] = ([{"n": got}] if got else []) + [{"e": r.choice(["Other", "WouldBlock", "BrokenPipe"])}]
        elif t == "full":
            if base + pos[n] > top:
                src.append({"n": base + pos[n] - top})
                top = base + pos[n]
            ops[-1]["disk"] = pos[start + e["len"]] - at
            ops[-1]["target"] = "path"
        elif t in ("Interrupted", "Other"):
            src.append({"e": t})
        else:
            o = dict(e["o"], size=lim(e["o"]["size"]), mem=lim(e["o"]["mem"]))
            o.pop("count")
            start, at = n, pos[n]
            if t == "writeto":
                ops.append({"op": "writeto", "o": o, "w": []})
            else:
                ops.append({"op": "save", "o": o, "target": r.choice(["exists", "notdir"] if e["bad"] else ["path", "path", "deep", "temp"])})
    if len(b) > top:
        src.append({"n": len(b) - top})
    return sc("walk-%d" % i, b, bnd, src, ops, r.choice(["borrow", "owned", "cont", "mut"]), extra=3)


def save_walks(r, cfg, num):
    ws = walks("SaveWalk", cfg, num, r.randrange(1 << 30))
    r.shuffle(ws)
    return [save_walk(r, w, i) for i, w in enumerate(ws[:num])]


# ---------------------------------------------------------------------------------------------------
# EntriesImpl: whole-request saves that stop and go on.

def entries_walk(r, w, i):
    from gen_server import fill, head, sc
    wide = r.choice([1, 1, 40])
    bnd, b, ends = r.choice(["B", "bnd"]), b"", []
    data = bytes(w["b"])
    names = {97: r.choice(["a", "name", "\u00e9"]), 98: "b"}
    for p in w["parts"]:
        d = b"".join(bytes([c]) * wide for c in data[p["ds"] - 1:p["de"]])
        b += b"--" + bnd.encode() + b"\r\n" + head(names[p["name"][0]], r.choice([None, None, "f.x"]), r.choice([None, None, "text/plain", "image/png"])) + d + b"\r\n"
        ends.append(len(b))
    b += b"--" + bnd.encode() + b"--\r\n"
    src, ops, top = [], [], 0
    for e in w["rec"]:
        t = e["t"]
        if t == "saveall":
            o = {k: v * wide if k == "size" and v > 0 else v for k, v in e["o"].items()}
            o["mem"] = r.choice([-1, -1, 0, wide])
            ops.append({"op": "saveall", "o": o, "target": r.choice(["temp", "dir", "prefix", "tempdir"]), "keep": False, "rest": False})
        elif t == "Other":
            at = 0 if e["n"] == 0 else ends[e["n"] - 1]
            if at > top:
                src.append({"n": at - top})
                top = at
            src.append({"e": r.choice(["Other", "UnexpectedEof", "ConnectionReset"])})
        elif t == "remove":
            ops.append({"op": "dropents", "name": names[e["name"][0]]})
        elif t in ("keep", "rest"):
            ops[-1][t] = True
    if len(b) > top:
        src.append({"n": len(b) - top})
    return sc("walk-%d" % i, b, bnd, src, ops, "borrow", extra=3)


def entries_walks(r, cfg, num):
    ws = walks("EntriesWalk", cfg, num, r.randrange(1 << 30))
    r.shuffle(ws)
    return [entries_walk(r, w, i) for i, w in enumerate(ws[:num])]


# ---------------------------------------------------------------------------------------------------
# ClientImpl: requests over transports and streams that take and give the behaviour's portions. Each byte of
# data is repeated or not; the boundary has 16 bytes, and a header block what it takes.

def client_walk(r, w, i):
    from gen_client import fld, sc
    wide = r.choice([1, 1, 2, 37])
    heads, fs = {}, []
    for f in w["fields"]:
        t = {72: "text", 82: "stream", 83: "stream", 70: "file"}[f["c"]]
        name = {72: "a", 82: "b", 83: "cc", 70: "file"}[f["c"]]
        d = fld(r, t, name=name, data=bytes(r.choice([120, 120, 13, 10, 45]) for _ in range(f["n"] * wide)), missing=f["missing"])
        d["src"], d["link"] = [], False
        if t == "stream":
            d["filename"], d["ctype"] = None, None
        if t == "file":
            d["filename"], d["want"] = "h", "application/octet-stream"
        heads[f["c"]] = len('Content-Disposition: form-data; name=""') + len(name) + \
            (len('; filename="h"') if t == "file" else 0) + (len("\r\nContent-Type: application/octet-stream") if t != "text" else 0)
        fs.append(d)
    size = lambda b: sum(16 if c in (66, 67) else heads[c] if c in heads else wide if c == 120 else 1 for c in b)
    sink, bufs, kw, bad = [], [], {}, False
    old, stops = [], []  # of earlier requests of the same Multipart
    for e in w["rec"]:
        t = e["t"]
        if t == "n":
            fs[e["i"] - 1]["src"].append({"n": e["n"] * wide})
        elif t in ("Interrupted", "Other"):
            fs[e["i"] - 1]["src"].append({"e": t if t == "Interrupted" else r.choice(["Other", "TimedOut", "UnexpectedEof", "BrokenPipe"])})
            if t == "Other" and w["mode"] == "prepared":
                bufs.append(size(e["b"]) + (e["n"] - len(e["b"])) * wide)
            bad |= t == "Other"
        elif t == "out":
            sink.append({"n": size(e["b"])})
        elif t == "wWriteZero":
            sink.append({"n": 0})
            bad = True
        elif t in ("wInterrupted", "wOther"):
            sink.append({"e": "Interrupted" if t == "wInterrupted" else r.choice(["Other", "WouldBlock", "BrokenPipe", "ConnectionReset"])})
            bad |= t == "wOther"
        elif t == "pread":
            bufs.append(size(e["b"]) + (e["n"] - len(e["b"])) * wide)
        elif t == "again":
            old.append(bufs or [1])
            stops.append(len(bufs))
            bufs = []
        elif t in ("refuse",):
            kw["refuse"] = True
        elif t in ("openfail", "finfail"):
            kw[t] = r.choice(["Other", "TimedOut"])
        elif t in ("add", "send") and (bad or any(f["missing"] for f in w["fields"])):
            kw["goon"] = True
    if w["rounds"]:
        kw["rounds"] = w["rounds"]
        while len(old) < len(w["rounds"]) - 1:
            old, bufs, stops = old + [bufs or [1]], [], stops + [None]
        bufs = old + [bufs or [1]]
        kw["stops"] = stops + [None]
    return sc("walk-%d-%s" % (i, w["mode"]), w["mode"], fs, sink=sink, sticky=True, bufs=bufs or [1], **kw)


def client_walks(r, cfg, num):
    ws = walks("ClientWalk", cfg, num, r.randrange(1 << 30))
    key = lambda w: json.dumps([w["mode"], w["fields"]])[:-1] + json.dumps(w["rec"])[:-1]
    ws.sort(key=key)
    ws = [w for k, w in enumerate(ws) if k + 1 == len(ws) or not key(ws[k + 1]).startswith(key(w))]
    r.shuffle(ws)
    return [client_walk(r, w, i) for i, w in enumerate(ws[:num])]


# ---------------------------------------------------------------------------------------------------
# InterceptImpl: fields of n times a scale, chosen such that the model's fields in files lie above the
# middleware's memory threshold, or all below.

def icept_walk(r, w, i):
    from gen_det import icp
    from gen_server import body, fill, head
    bnd = r.choice(["B", "bnd", "Xb-1"])
    scale = r.choice([1, 7, 700, 6000, 10240])
    ps = []
    for p in w["parts"]:
        h = head({97: "a", 98: "bb", 300: ""}[p["name"]], r.choice([None, "x.bin"]), r.choice([None, "image/png", "text/plain"])) \
            if p["name"] != 300 else r.choice([b"X-Y: z", b"Content-Disposition: form-data", b"nonsense", b'Content-Disposition: inline; name="a"'])
        ps.append((h, fill(r, p["n"] * scale)))
    b = body(bnd, ps)
    ends, at = [len(bnd) + 4], 0
    for h, d in ps:
        at = b.index(h + b"\r\n\r\n" + d, at) + len(h) + 4 + len(d)
        ends.append(at)
    if w["end"] == 1:
        b = b[:ends[-1]]
    elif w["end"] == 2:
        tail = b.rindex(b"--")
        b = b[:tail + r.choice([0, 1])]
    src = []
    for e in w["rec"]:
        lo = ends[e["at"]] if e["at"] else 0
        hi = max(lo, min(len(b), ends[min(e["at"] + 1, len(ps))]) - 1)
        n = r.randint(lo, hi)
        src = ([{"n": n}] if n else []) + [{"e": r.choice(["ConnectionReset", "TimedOut", "Other"])}] * 3
    if not src and r.random() < 0.3:
        src = [{"n": r.choice([1, 100, 1024, 8192])}]
    return icp("walk-%d" % i, b, ["multipart/form-data; boundary=" + bnd], w["strict"], w["size"] * scale, w["count"],
               r.choice([None, "missing", "there"]), src=src)


def icept_walks(r, cfg, num):
    return [icept_walk(r, w, i) for i, w in enumerate(walks("InterceptWalk", cfg, num, r.randrange(1 << 30))[:num])]


# ---------------------------------------------------------------------------------------------------
# SaveDirImpl: every history of one directory up to a length, and random ones of several.

def dir_request(r, n, stopped=True):
    """a request of which n fields go to files"""
    from gen_server import body, fill, head
    mem = r.choice([0, 0, 0, 3])
    lens = [r.choice([4, 10, 1030, 9000]) for _ in range(n)] + [r.choice([0, mem]) for _ in range(r.choice([0, 0, 1]))]
    r.shuffle(lens)
    part = lambda k: (head(r.choice(["a", "b", "../x"]), r.choice([None, "f.txt", "../../f"])), fill(r, k))
    kw = {}
    if stopped and r.random() < 0.3:  # stopped by the count
        kw = {"count": len(lens), "how": r.choice(["keep", "field", "into"])}
        lens += [5] * r.choice([1, 2])
    return dict(kw, body=list(body("bnd", [part(k) for k in lens])), mem=mem)


def dir_scenario(r, w, i, temp=None):
    ops, n = [], {}
    for e in w["rec"]:
        o = {"op": e["op"], "h": e["h"]}
        if e["op"] == "save":
            n[e["h"]] = e["n"]
            o.update(dir_request(r, e["n"]), n=e["n"], target="dir" if e["perm"] else temp or r.choice(["temp", "prefix", "tempdir"]))
        elif e["op"] == "more":
            n[e["h"]] += 1
            o.update(dir_request(r, 1, stopped=False), n=n[e["h"]])
        elif e["op"] == "drop" and r.random() < 0.3:
            o["how"] = "unwind"
        ops.append(o)
    return {"id": "dir-%d" % i, "kind": "dir", "ops": ops, "precious": r.random() < 0.5, "nested": r.random() < 0.4, "rel": r.random() < 0.3, "spec": {"precious": True}}


def dir_walks(r, num):
    out = []
    rc, o = run.java("SaveDirWalk.tla", os.path.join("models", "SaveDir-all.cfg"), workers=1, heap="2g", timeout=300)
    if rc != 0:
        raise run.ToolError("model SaveDir-all does not hold: %s" % o[-3000:])
    ws = sorted({l.strip() for l in o.split("\n") if l.strip().startswith('"WALK ')})
    for l in ws:
        w = json.loads(json.loads(l)[5:])
        for t in (["dir"] if w["rec"][0]["perm"] else ["temp", "prefix", "tempdir"]):
            out.append(dir_scenario(r, w, len(out), t))
    for w in walks("SaveDirWalk", "SaveDir-walk", num, r.randrange(1 << 30)):
        out.append(dir_scenario(r, w, len(out)))
    return out


# ---------------------------------------------------------------------------------------------------
# HeaderNotation: header blocks in every notation, several to a request, a flawed one at its end.

def header_blocks(r, num):
    from gen_server import CRLF, STYLES, body, chunks, fill, head, ok, sc
    good = [bytes(w["h"]) for w in walks("HeaderNotation", "HeaderNotation-walk", num, r.randrange(1 << 30), depth=30) if w["ok"]]
    bad = [bytes(w["h"]) for w in walks("HeaderNotation", "HeaderNotation-walk-flaws", num // 3, r.randrange(1 << 30), depth=30) if not w["ok"]]
    r.shuffle(good)
    out = []
    while good:
        hs = [good.pop() for _ in range(min(len(good), r.choice([1, 4, 8, 12])))]
        if bad and r.random() < 0.9:
            hs.append(bad.pop())
        bnd = r.choice(["bnd", "B"])
        b = body(bnd, [(h, b"data%d" % k) for k, h in enumerate(hs)] + [(head("z"), b"last")] * r.randint(0, 1))
        out.append(sc("walk-%d" % len(out), b, bnd, chunks(r, len(b), r.choice(["all", "all", "small", "mix"])), [], r.choice(STYLES), extra=3))
    return out


def type_requests(r, num):
    """Requests whose Content-Type is written in every notation of TypeNotation."""
    from gen_server import rand_body
    out = []
    for cfg, n in (("TypeNotation-walk", num), ("TypeNotation-walk-flaws", num // 2)):
        for w in walks("TypeNotation", cfg, n, r.randrange(1 << 30), depth=20):
            bnd = bytes(w["bnd"]).decode()
            out.append((w["integ"], bytes(w["v"]).decode(), bnd))
    r.shuffle(out)
    return out
