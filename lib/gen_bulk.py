"""Requests of many bytes, and saves that nothing was configured for (spec/Bulk.tla)."""
DS, DM, DC = 8388608, 10240, 256


def part(n, text=True, plain=True):
    return {"len": n, "text": text or n == 0, "plain": plain}


def sc(i, parts, ops, src=()):
    return {"id": i, "kind": "bulk", "spec": {"parts": parts}, "ops": ops, "src": list(src)}


def near(r, n):
    return max(0, n + r.choice([-2, -1, 0, 1, 2]))


def portions(r):
    return r.choice([[], [], [{"n": 65536}], [{"n": 8192}], [{"n": 8191}, {"n": 1}], [{"n": 1460}], [{"n": 4096}, {"n": 100}], [{"n": 16384}, {"n": 7}],
                     [{"n": r.randint(1000, 20000)}]])


def o(size=None, mem=None, count=None, text=None):
    d = {"size": size, "mem": mem, "count": count}
    if text:
        d["text"] = text
    return d


def how(r):
    return r.choice([{"op": "read", "n": r.choice([1000, 4096, 8192, 8193, 65536, 100000])}, {"op": "fill", "n": r.choice([1000, 8192, 1 << 20])},
                     {"op": "read", "n": 5000, "min": r.choice([0, 4096, 8192, 16384, 40000, 50000, 65536])},
                     {"op": "fill", "n": 1 << 20, "min": r.choice([0, 8192, 20000, 40000, 65536])}])


BIG = [8190, 8191, 8192, 8193, 16384, 16385, 32768, 65535, 65536, 65537, 100000, 131072, 1 << 18]


def reading(r, i, n, whole=False):
    """fields around the capacity of the reader's buffer and beyond"""
    out = []
    for k in range(n):
        parts = [part(near(r, r.choice(BIG)), r.random() < 0.8) for _ in range(r.randint(1, 3))]
        ops = []
        for p in parts:
            ops.append({"op": "next"})
            a = 0.5 if whole else r.random()
            if a < 0.2:
                ops.append(dict(how(r), stop=r.choice([1, 100, 8192, 9000])))
            if 0.1 < a < 0.85:
                ops.append(how(r))
        ops.append({"op": "next"})
        out.append(sc("bulk-%s-%d" % (i, k), parts, ops, portions(r)))
    return out


def buffer_ends(r, every=1):
    """the end of a field at each place around the ends of the reader's buffer, whole reads of the source"""
    out, k = [], r.randrange(every)
    for cap in [8192, 16384, 32768]:
        for total in [2 * cap, 3 * cap]:
            for d in range(-12, 4):
                for w in ({"op": "fill", "n": 1 << 20}, {"op": "read", "n": 1 << 17}, {"op": "read", "n": 1024}):
                    k += 1
                    if k % every:
                        continue
                    # the delimiter's CR is at total + d of the body, after 52 bytes of headers
                    w = dict(w)
                    if cap > 8192:
                        w["min"] = cap // 2
                    p = part(total + d - 52, True)
                    out.append(sc("bufend-%d-%d-%d-%s-%d" % (cap, total, d, w["op"], w["n"]), [p, part(r.choice([0, 5]))],
                                  [{"op": "next"}, w, {"op": "next"}, {"op": "read", "n": 100}, {"op": "next"}], r.choice([[], [], [{"n": cap}]])))
    return out


def saving(r, i, n):
    out = []
    for k in range(n):
        L = r.choice(BIG[:-2])
        n1 = near(r, L)
        parts = [part(n1, r.random() < 0.7), part(near(r, r.choice([0, 10, DM])), r.random() < 0.7)]
        s = r.choice([-1, -1, near(r, L), L, n1, n1 - 1 if n1 else 0])
        m = r.choice([-1, 0, 100, near(r, L), near(r, DM), DM, None])
        t = r.choice([None, "try", "ignore"] + (["force"] if parts[0]["text"] else []))
        op = r.choice([{"op": "save", "o": o(s, m, text=t), "target": r.choice(["path", "dir", "temp"])}] * 3 +
                      [{"op": "writeto", "o": o(s), "w": r.choice([[], [{"n": 1000}, {"n": 1}, {"n": 8191}] * 5])}])
        out.append(sc("bulksave-%s-%d" % (i, k), parts, [{"op": "next"}, op, {"op": "read", "n": 8192}, {"op": "next"},
                   {"op": "save", "o": o(), "target": "path"}, {"op": "read", "n": 100}, {"op": "next"}], portions(r)))
    return out


def defaults(r, size=True):
    """nothing configured: the default limits apply exactly"""
    out = []
    for n in [DM - 1, DM, DM + 1, DM + 2, 2 * DM, 9000]:
        for plain in (True, False):
            out.append(sc("dmem-%d-%s" % (n, plain), [part(n, plain, plain), part(3)], [
                {"op": "next"}, {"op": "save", "o": o()}, {"op": "read", "n": 4096}, {"op": "next"}, {"op": "save", "o": o()}, {"op": "next"}], portions(r)))
            out.append(sc("dmemall-%d-%s" % (n, plain), [part(n, r.random() < 0.5, plain), part(3), part(n + 1)], [{"op": "saveall", "o": o(), "target": "temp"}],
                          portions(r)))
    for n in [DC - 1, DC, DC + 1, DC + 40]:
        for again in (None, DC + 100):
            ops = [{"op": "saveall", "o": o(), "target": "dir"}]
            if again:
                ops.append({"op": "saveall", "o": o(count=again)})
            out.append(sc("dcount-%d-%s" % (n, again), [part(r.choice([0, 1, 5])) for _ in range(n)], ops, portions(r)))
    if size:
        for n in [DS - 1, DS, DS + 1]:
            out.append(sc("dsize-%d" % n, [part(n), part(5)], [{"op": "next"}, {"op": "save", "o": o()}, {"op": "read", "n": 65536}, {"op": "next"}],
                          r.choice([[], [{"n": 65536}], [{"n": 100000}]])))
            out.append(sc("dsizeall-%d" % n, [part(7), part(n, False, False), part(5)], [{"op": "saveall", "o": o(), "target": "temp"},
                       {"op": "saveall", "o": o(-1)}], [{"n": 65536}]))
        out.append(sc("dsizemem", [part(DS + 1)], [{"op": "next"}, {"op": "save", "o": o(mem=-1)}, {"op": "read", "n": 65536}], [{"n": 65536}]))
        out.append(sc("dsizewrite", [part(DS + 1)], [{"op": "next"}, {"op": "writeto", "o": o(), "w": []}, {"op": "read", "n": 65536}], [{"n": 65536}]))
        out.append(sc("dsizenone", [part(DS + 1)], [{"op": "next"}, {"op": "save", "o": o(-1)}, {"op": "next"}], [{"n": 65536}]))
    return out


def counts(r, i):
    """count limits beyond one byte, many fields"""
    out = []
    for n, c in [(300, 299), (300, 300), (300, 301), (257, 256), (256, 255), (258, 257), (600, 512)]:
        out.append(sc("bulkcount-%s-%d-%d" % (i, n, c), [part(r.choice([0, 1, 4])) for _ in range(n)], [
            {"op": "saveall", "o": o(-1, r.choice([0, 2, -1]), c), "target": "dir"}, {"op": "saveall", "o": o(-1, -1, -1)}], portions(r)))
    return out


U4G = 65536  # 4 GiB in units of 64 KiB


def huge_save(r, which):
    """beyond what 32 bits count: fields of more than 4 GiB"""
    n = U4G + r.randint(1, 40)
    nxt, rest = {"op": "next"}, {"op": "read", "n": 65536}
    mk = {"none": [nxt, {"op": "writeto", "o": {"size": -1, "mem": 0}}, rest, nxt],
          "over": [nxt, {"op": "writeto", "o": {"size": n - 1, "mem": 0}}, rest, nxt],
          "fits": [nxt, {"op": "writeto", "o": {"size": r.choice([n, n + 1]), "mem": 0}}, nxt],
          "file": [nxt, {"op": "save", "o": {"size": r.choice([-1, n]), "mem": 0}}, nxt],
          "read": [nxt, {"op": "read", "n": r.choice([8192, 65536, 100000])}, nxt],
          "skip": [nxt, {"op": "read", "n": 4096, "stop": 1}, nxt]}
    return [{"id": "huge-%s" % w, "kind": "huge", "spec": {"parts": [part(n)]}, "ops": mk[w]} for w in which]


def huge_send(r, which, units=None):
    return [{"id": "huge-%s-%d" % (w, k), "kind": "huge", "how": w, "spec": {"parts": [part(r.choice(units) if units else U4G + r.randint(1, 40))]}, "ops": [],
             "n": r.choice([8192, 65536, 100000])} for k, w in enumerate(which)]


def mid(r, i, n):
    """fields of some MiB, a few bytes around the limit"""
    out = []
    for k in range(n):
        L = r.choice([1 << 20, 2 << 20, 3000000, 1 << 22]) + r.choice([0, r.randint(1, 9), r.randint(1, 9)])
        lim = L + r.choice([-9, -2, -1, 0, 1, 2, 9, 5000])
        op = r.choice([{"op": "save", "o": o(lim, r.choice([0, DM, lim, -1])), "target": "path"}, {"op": "writeto", "o": o(lim), "w": []}])
        out.append(sc("mid-%s-%d" % (i, k), [part(L, r.random() < 0.7), part(3)], [{"op": "next"}, op, {"op": "read", "n": 65536}, {"op": "next"}], portions(r)))
    return out


def c21(r, scale=1.0):
    import gen_det
    out = []
    for k in range(max(1, int(2 * scale))):
        for x in defaults(r, size=k == 0):
            x["id"] += "-%d" % k
            out.append(x)
    # one option set, the others left alone
    for k in range(int(60 * scale)):
        n = near(r, r.choice([0, DM, DM, 2 * DM, 100]))
        plain = r.random() < 0.5
        ps = [part(n, r.random() < 0.7, plain)] + [part(near(r, r.choice([3, DM]))) for _ in range(r.choice([0, 1, 3]))]
        w = r.choice([o(size=r.choice([DM, n, max(0, n - 1), 5, -1, DM + 1])), o(text="try"), o(text="ignore"), o(mem=r.choice([0, n, -1])),
                      o(count=r.choice([0, 1, 2, 1000, -1]))])
        if r.random() < 0.5:
            w["count"] = None
            ops = [{"op": "next"}, {"op": "save", "o": w, "target": r.choice(["path", "dir", "temp"])}, {"op": "read", "n": 4096}]
        else:
            ops = [{"op": "saveall", "o": w, "target": r.choice(["dir", "temp"])}, {"op": "saveall", "o": o()}]
        out.append(sc("one-%d" % k, ps, ops, portions(r)))
    # setters called in any order and number
    for k in range(int(110 * scale)):
        n = near(r, r.choice([0, 100, DM, DM, DM + 5000, 2 * DM]))
        plain = r.random() < 0.5
        ps = [part(n, r.random() < 0.7, plain)] + [part(near(r, r.choice([3, DM]))) for _ in range(r.choice([0, 1, 3]))]
        c = lambda k, n=0, t="": {"k": k, "n": n, "t": t}
        text = ["try", "try", "ignore"] + (["force"] if ps[0]["text"] else [])
        mk = {"size": lambda: c("size", r.choice([0, 5, 100, max(0, n - 1), n, n + 1, DM, -1])), "mem": lambda: c("mem", r.choice([0, 50, max(0, n - 1), n, DM, -1])),
              "open": lambda: c("open"), "text": lambda: c("text", 0, r.choice(text))}
        whole = r.random() < 0.5
        if whole:
            mk["count"] = lambda: c("count", r.choice([0, 1, 2, 1000, -1]))
        calls = [mk[x]() for x in r.sample(sorted(mk), r.choice([2, 2, 3, len(mk)]))]
        if r.random() < 0.3:
            calls.append(mk[r.choice(sorted(mk))]())
        w = {"calls": calls}
        if whole:
            ops = [{"op": "saveall", "o": w, "target": r.choice(["dir", "temp"])}, {"op": "saveall", "o": o()}]
        elif r.random() < 0.25:
            ops = [{"op": "next"}, {"op": "writeto", "o": w, "w": []}, {"op": "read", "n": 4096}]
        else:
            ops = [{"op": "next"}, {"op": "save", "o": w, "target": r.choice(["path", "dir", "temp"])}, {"op": "read", "n": 4096}]
        out.append(sc("calls-%d" % k, ps, ops, portions(r)))
    # a setting made again holds as if it had been made once, and the others stay what they are
    c = lambda k, n=0, t="": {"k": k, "n": n, "t": t}
    again = {"size": [(5, -1), (5, DM + 100), (-1, 5), (0, DM), (DM, 2 * DM)], "mem": [(0, -1), (-1, 0), (5, DM), (0, 2 * DM), (2 * DM, 5)],
             "count": [(0, -1), (1, 3), (-1, 1), (0, 300)], "text": [("ignore", "try"), ("try", "ignore"), ("force", "try"), ("ignore", "force")]}
    for k in sorted(again):
        for j, (a, z) in enumerate(again[k]):
            for whole in (True, False):
                if k == "count" and not whole:
                    continue
                calls = [c(k, a), c(k, z)] if k != "text" else [c(k, 0, a), c(k, 0, z)]
                if r.random() < 0.4:
                    calls.insert(1, r.choice([c("open"), c("size", r.choice([-1, 100])), c("mem", r.choice([-1, 100]))]))
                ps = [part(r.choice([DM, DM - 1, DM + 1, 2 * DM, 50]), True, k == "text" or r.random() < 0.5), part(3), part(near(r, 100))]
                w = {"calls": calls}
                ops = [{"op": "saveall", "o": w, "target": "temp"}, {"op": "saveall", "o": o()}] if whole else \
                    [{"op": "next"}, {"op": "save", "o": w, "target": "path"}, {"op": "read", "n": 4096}]
                out.append(sc("again-%s-%d-%s" % (k, j, whole), ps, ops, portions(r)))
    for x in gen_det.c18(r, 0.5 * scale):
        if x.get("usedefault"):
            out.append(x)
    return out


GENERATORS = {"C21": c21}
