"""What results turn into (spec/Adapters.tla): every result through every conversion."""
import gen_save

WHY = ["count", "size", "io", "utf8"]
KINDS = ["Other", "ConnectionReset", "TimedOut", "Interrupted", "WouldBlock", "UnexpectedEof", "InvalidData", "BrokenPipe", "WriteZero"]
CONV = ["okish", "both", "result", "strict"]


def bs(s):
    return list(s.encode() if isinstance(s, str) else s)


def pay(**kw):
    d = {"n": 0, "kind": "none", "bytes": [], "ents": [], "cnt": 0}
    d.update(kw)
    return d


def datum(r, n=None):
    k = r.choice(["text", "bytes", "file", "file"])
    n = r.choice([0, 1, 5, 40]) if n is None else n
    b = gen_save.content(r, n, r.choice(["ascii", "uni"]) if k == "text" else None)
    return {"kind": k, "bytes": bs(b)}


def ents(r):
    names = sorted(r.sample(["a", "b", "c c", "d"], r.choice([0, 1, 2, 3])))
    es = [{"name": bs(n), "datas": [datum(r) for _ in range(r.choice([1, 1, 2, 3]))]} for n in names]
    return pay(ents=es, cnt=sum(len(e["datas"]) for e in es))


def value(r, t, v, why, ekind=None):
    err = r.choice(["broken wire", "e-%d" % r.randrange(1000), "\u00fc"])
    p = pay(n=r.choice([0, 1, 7, 1 << 20])) if t == "count" else pay(**datum(r)) if t == "field" else ents(r)
    part = []
    if t == "entries" and v == "partial" and r.random() < 0.8:
        part = [{"name": bs(r.choice(["a", "b", "e"])), "dest": [datum(r)] if r.random() < 0.8 else []}]
    has = v == "error" or why == "io"
    return {"t": t, "v": v, "why": why if v == "partial" else "none", "err": bs(err) if has else [], "ekind": ekind or r.choice(KINDS),
            "p": pay() if v == "error" else p, "part": part}


def c22(r, scale=1.0):
    out = []

    def add(tag, what, val, ops):
        out.append({"id": "ad-%d-%s" % (len(out), tag), "kind": "adapt", "spec": {"what": what, "value": val}, "ops": ops})

    given = lambda: bs(r.choice(["", "was asked", "message %d" % r.randrange(100)]))
    for _ in range(max(1, int(2 * scale))):
        for t in ["count", "field", "entries"]:
            for v, w in [("full", "none"), ("error", "none")] + [("partial", x) for x in WHY]:
                for c in CONV:
                    for ekind in KINDS if v == "error" or w == "io" else []:
                        add("%s-%s-%s-%s" % (t, v, c, ekind), "result", value(r, t, v, w, ekind), [{"op": c}])
                    for maps in (0, 1, 2):
                        add("%s-%s-%s-%s" % (t, v, w, c), "result", value(r, t, v, w), [{"op": "map"}] * maps + [{"op": c}])
                if v == "partial":
                    for c in ["unwraperr", "expecterr"]:
                        add("%s-%s-%s" % (t, w, c), "result", value(r, t, v, w), [{"op": c, "given": given()}])
                if t == "entries":
                    for c in ["intoentries"] + (["discard", "keeppartial", "keeppartial", "keeppartial"] if v == "partial" else []):
                        add("ents-%s-%s-%s" % (v, w, c), "result", value(r, t, v, w), [{"op": c}])
        for v in ["entry", "end", "error"]:
            for c in ["result", "unwrap", "expect", "expectalt", "unwrapopt", "expectopt"]:
                for ekind in KINDS if v == "error" else KINDS[:1]:
                    add("next-%s-%s" % (v, c), "next", {"v": v, "n": r.randrange(100), "err": bs("wire %d" % r.randrange(1000)), "ekind": ekind},
                        [{"op": c, "given": given(), "given2": given()}])
    for i in range(int(80 * scale)):
        d = datum(r, r.choice([0, 1, 3, 20, 300, 8191, 8192, 8193, 9000]))
        ops = []
        for _ in range(r.choice([1, 1, 2])):
            ops.append({"op": "open"})
            for _ in range(r.randint(0, 8)):
                ops.append(r.choice([{"op": "dread", "n": r.choice([0, 1, 2, 7, 100, 8192, 10000])}, {"op": "dfill"},
                                     {"op": "dconsume", "n": r.choice([0, 1, 5, 100, 9000])}]))
            if r.random() < 0.7:
                ops.append({"op": "dall"})
                ops += r.choice([[], [{"op": "dread", "n": 5}], [{"op": "dfill"}]])
        add("data-%s" % d["kind"], "data", d, ops)
    for i in range(int(60 * scale)):
        ops = []
        for _ in range(r.randint(1, 10)):
            k = r.random()
            nm = bs(r.choice(["a", "b", "c c", "\u00e9"]))
            if k < 0.45:
                ops.append({"op": "put", "name": nm, "d": datum(r)})
            elif k < 0.55:
                ops.append({"op": "drop", "name": nm})
            else:
                ops.append(r.choice([{"op": "count"}, {"op": "recount"}, {"op": "empty"}]))
        ops += [{"op": "empty"}, {"op": "recount"}, {"op": "count"}]
        if all(x["op"] != "put" or not any(c > 127 for c in x["name"]) for x in ops):
            w = r.choice([[], [{"n": 1}] * 40, [{"n": 3}, {"n": 1}] * 10, [{"n": 5}, {"e": "Other"}], [{"n": 2}, {"e": "Interrupted"}]])
            ops.append({"op": "debug", "w": w})
        add("ents", "ents", {}, ops)
    return out


GENERATORS = {"C22": c22}
