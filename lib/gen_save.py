"""Scenarios for saving: one field or a whole request, limits, thresholds, text modes, targets."""
import itertools
import gen_bulk
import models
from gen_server import (BNDS, CRLF, HARD, STYLES, bad_head, body, chunks, cut_at, fill, head, how_read, ok, rand_body, rand_data,
                        sc, with_faults, frags)

TEXTS = ["try", "force", "ignore", "default"]
UNI = ["\u00e9", "\u20ac", "\U0001f600", "\u0800", "\uffff", "\U00010000", "\u07ff", "\u0080", "\U0010ffff", "\ud7ff"]
BAD = [b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xff", b"\xfe", b"\xc0\xaf", b"\xe0\x80\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80",
       b"\xf8\x88\x80\x80\x80", b"\xc3(", b"\xe2(\xa1", b"\xe2\x82(", b"\xf0\x28\x8c\xbc", b"\xc1\xbf", b"\xf5\x80\x80\x80"]


EDGES = [b"", b"\0", b" ", b"\t", b"\n", b"\r\n", b"\r", b"\n\n", "\ufeff".encode(), "\u00a0".encode(), "\u2028".encode(), b"\x1a", b"\x7f", b"\""]


def content(r, n, kind=None):
    """n bytes: ascii, multi-byte text, text with one defect, or binary"""
    kind = kind or r.choice(["ascii", "ascii", "uni", "uni", "bad", "bin"])
    if kind == "ascii":
        out = fill(r, n)
        if r.random() < 0.2:  # nothing is trimmed or translated
            a, z = r.choice(EDGES), r.choice(EDGES)
            if len(a) + len(z) <= n:
                out = a + out[len(a):n - len(z)] + z
        return out
    if kind == "bin":
        return bytes(r.choice([0, 1, 65, 127, 128, 200, 255]) for _ in range(n))
    out = "\ufeff".encode() if n >= 3 and r.random() < 0.15 else b""
    while len(out) < n:
        c = r.choice(UNI).encode() if r.random() < 0.5 else fill(r, r.randint(1, 3))
        if len(out) + len(c) <= n:
            out += c
        elif n - len(out) <= 3:
            out += fill(r, n - len(out))
    if kind == "bad" and n:
        b = r.choice([x for x in BAD if len(x) <= n] or [b"\xff"])
        p = r.choice([0, n - len(b), r.randint(0, n - len(b))])
        out = out[:p] + b + out[p + len(b):]
    return out


def opt(size=-1, mem=-1, text="try", count=None):
    o = {"size": size, "mem": mem}
    if text != "default":
        o["text"] = text
    if count is not None:
        o["count"] = count
    return o


def tail_ops(r):
    return [r.choice([{"op": "readall"}, {"op": "drain", "n": 0}, {"op": "pieces", "n": 100}, {"op": "save", "o": opt(), "target": "path"},
                      {"op": "end"}])]


def limits_around(r, n):
    pool = [-1, 0, 1, 2, n - 2, n - 1, n, n + 1, n + 2, n // 2, 1024]
    return r.choice([x for x in pool if x >= -1]), r.choice([x for x in pool if x >= -1])


def lens(r, big=0.25):
    if r.random() < big:
        return r.choice([1000, 1023, 1024, 1025, 1030, 1500, 2048, 2100])
    return r.choice([0, 1, 2, 3, 4, 5, 7, 10, 20, 33])


def save_sc(r, i, pre, n=None, o=None, kind=None, target=None, writer=None, faults=0, text=None):
    n = lens(r) if n is None else n
    bnd = r.choice(BNDS[:6])
    data = content(r, n, kind)
    second = content(r, r.choice([0, 3, 8]))
    ct = r.choice([None, None, "text/plain", "application/octet-stream", "text/plain; charset=iso-8859-1"])
    b = body(bnd, [(head("a", r.choice([None, "up.bin", "up.bin", None, ""]), ct), data), (head("b"), second)])
    if not ok(b, bnd, 2):
        return None
    if o is None:
        s, m = limits_around(r, n)
        o = opt(s, m, text or r.choice(TEXTS))
    ops = [{"op": "next"}]
    if r.random() < 0.4:
        ops.append({"op": "setmin", "n": r.choice([0, 0, 1, 20])})
    if r.random() < 0.15 and n:
        ops.append({"op": "read", "n": r.randint(1, n)})
    elif r.random() < 0.1:
        ops += [{"op": "fill"}, {"op": "consume", "n": r.choice([1, 2])}]
    if writer or (writer is None and r.random() < 0.2):
        w = [] if r.random() < 0.5 else [{"n": r.choice([1, 2, 3, 7])} for _ in range(r.randint(1, 30))]
        op = {"op": "writeto", "o": o, "w": w}
        if r.random() < 0.3:
            w.insert(r.randint(0, len(w)), {"e": r.choice(HARD + ["Interrupted"] * 4)})
        k = r.random()
        if k < 0.1:
            op["wtail"] = r.choice(HARD)
        elif k < 0.2:
            op["wtail"] = "WriteZero"
        elif k < 0.3:
            w.insert(r.randint(0, len(w)), {"n": 0})
        ops.append(op)
    else:
        ops.append({"op": "save", "o": o, "target": target or r.choice(["path", "path", "dir", "temp", "filename", "deep", "reldir", "relpath"])})
    ops += tail_ops(r)
    ops.append({"op": "next"})
    if r.random() < 0.5:
        s, m = limits_around(r, len(second))
        ops.append({"op": "save", "o": opt(s, m, r.choice(TEXTS)), "target": r.choice(["path", "dir", "temp"])})
    src = chunks(r, len(b))
    if faults:
        src = with_faults(r, src, len(b), faults)
    return sc("%s-%d" % (pre, i), b, bnd, src, ops, r.choice(["borrow", "owned", "cont", "mut", "inplace"]), extra=4 if faults else 2)


# different names
ALIKE = ["a", "A", " a", "a ", "a[]", "a[0]", "a[1]", "", " ", "\u00e1", "a\u0301", "a.b", "a;", "aa", "\uff41", "'a'", "a\\", "file", "a\u200b"]


def all_sc(r, i, pre, nf=None, o=None, resume=0, count=None, target=None, faults=0, names=None, broken=0.1):
    bnd = r.choice(BNDS[:6])
    nf = r.choice([0, 1, 2, 3, 4]) if nf is None else nf
    parts = []
    names = names or r.choice([["a", "b", "c"]] * 3 + [ALIKE, r.sample(ALIKE, 2)])
    L = r.choice([0, 1, 3, 5, 8, 20])
    for k in range(nf):
        n = max(0, L + r.choice([-1, 0, 1, 0, 0, 5])) if r.random() < 0.9 else r.choice([1030, 1500])
        ct = r.choice([None, None, "text/plain", "image/png", "TEXT/html", "text/plain; charset=us-ascii", "text/x; charset=latin1; a=b"])
        parts.append((head(r.choice(names), r.choice([None, None, "x.txt", "x.txt", "", "..", "a/b.txt", "\u00e9.txt"]), ct), content(r, n)))
    if r.random() < broken:
        parts.insert(r.randint(0, len(parts)), (bad_head(r), b"bad"))
    b = body(bnd, parts)
    if not ok(b, bnd, len(parts)):
        return None
    if r.random() < broken:
        b = b[:r.randint(0, len(b))]
    ops = []
    first = True
    for _ in range(1 + resume):
        oo = dict(o or opt(r.choice([-1, L, L, L + 1, 1000]), r.choice([-1, 0, L - 1 if L else 0, L, 3]), r.choice(TEXTS)))
        oo["count"] = r.choice([-1, 0, 1, 2, nf - 1 if nf else 0, nf, nf + 1, 4]) if count is None else count
        ops.append({"op": "saveall", "o": oo, "target": target or r.choice(["temp", "dir", "prefix", "tempdir", "reldir"]),
                    "keep": r.random() < 0.4, "rest": r.random() < 0.7})
        if r.random() < 0.3 and not first:
            ops.append({"op": "dropents", "name": r.choice(names)})
        first = False
    src = chunks(r, len(b))
    if faults:
        src = with_faults(r, src, len(b), faults)
    return sc("%s-%d" % (pre, i), b, bnd, src, ops, "borrow", extra=4 if faults else 2)


# names that are easily taken for each other
CONFUSED = [["a", "A"], ["a", "a ", " a"], ["a", "a[]", "a[0]"], ["file", "FILE", "File"], ["\u00e9", "e\u0301"], ["a.b", "a_b", "a-b"], ["", "_", " "],
            ["\u00df", "ss", "SS"], ["a", "'a'", "a'"], ["a", "a\\", "\\a"], ["i", "I", "\u0131", "\u0130"], ["x" * 64, "x" * 65], ["x" * 255, "x" * 256, "x" * 254 + "y"],
            ["a b", "a%20b", "a+b", "a  b"], ["&", "&amp;"], ["a", "\uff41", "\u0430"], ["1", "01", "1.0"], ["a", "a\u200b", "\ufeffa"], ["a\tb", "a b"], ["a/b", "b", "/b"]]


def alike_sc(r, i, pre):
    names = CONFUSED[i % len(CONFUSED)]
    ns = names + [r.choice(names) for _ in range(2)]
    r.shuffle(ns)
    b = body("bnd", [(head(n, r.choice([None, None, None, ""]), r.choice([None, "image/png"])), b"%d" % k) for k, n in enumerate(ns)])
    o = opt(-1, r.choice([-1, -1, 0]), "try")
    ops = [{"op": "saveall", "o": dict(o, count=r.choice([-1, -1, 2])), "target": "temp", "keep": True, "rest": True}, {"op": "saveall", "o": o, "target": "temp"}]
    return sc("%s-%d" % (pre, i), b, "bnd", chunks(r, len(b)), ops)


def some(r, out, n, f, *a, **kw):
    k = 0
    for i in range(n * 3):
        s = f(r, i, *a, **kw)
        if s:
            out.append(s)
            k += 1
        if k >= n:
            break


def grid(r, pre, every, texts, kinds):
    """all lengths x limits x thresholds in a small box"""
    out, k = [], 0
    for n in range(0, 6):
        for s in [-1, 0, 1, 2, 3, 4, 5]:
            for m in [-1, 0, 1, 2, 3, 4, 5]:
                for t in texts:
                    k += 1
                    if (k + r.randrange(every)) % every:
                        continue
                    x = save_sc(r, k, pre, n=n, o=opt(s, m, t), kind=r.choice(kinds), writer=False)
                    if x:
                        out.append(x)
    return out


def c07(r, scale):
    out = grid(r, "g", max(1, int(5 / scale)), TEXTS, ["ascii", "uni"]) + utf_edges(r, min(1, 0.35 * scale), near=True)
    some(r, out, int(160 * scale), save_sc, "s", writer=False)
    some(r, out, int(80 * scale), save_sc, "w", writer=True)
    # limits around a window boundary of the reader
    for i in range(int(60 * scale)):
        bnd = "bnd"
        L = r.choice([1020, 1024, 1030, 1100])
        n = L + r.choice([-1, 0, 1, 2, 50])
        m = r.choice([0, 10, 1000, 1024, L - 1, L, L + 1, -1])
        b = body(bnd, [(head("a"), content(r, n, r.choice(["ascii", "uni"]))), (head("b"), b"x")])
        st = b.find(CRLF + CRLF) + 4
        cut = st + r.choice([m if m > 0 else L, L]) + r.randint(-3, 3)
        o = opt(L, m, r.choice(TEXTS))
        op = {"op": "save", "o": o, "target": r.choice(["path", "dir"])} if r.random() < 0.75 else {"op": "writeto", "o": o, "w": []}
        out.append(sc("win-%d" % i, b, bnd, cut_at([cut, cut + 1], len(b)), [{"op": "next"}, op] + tail_ops(r)))
    some(r, out, int(80 * scale), all_sc, "a", resume=0)
    # larger than the reader's capacity
    for i, (n, s, m) in enumerate([(9000, 8192, 0), (9000, 9000, 8191), (9000, 8999, 100), (9000, -1, 8192), (8193, 8192, 8192), (9000, -1, -1),
                                   (17000, 16384, 9000)]):
        b = body("bnd", [(head("a"), fill(r, n))])
        op = [{"op": "save", "o": opt(s, m, r.choice(TEXTS)), "target": "path"}, {"op": "writeto", "o": opt(s, m), "w": []}][i % 2]
        out.append(sc("big-%d" % i, b, "bnd", chunks(r, len(b), r.choice(["all", "big"])), [{"op": "next"}, op, {"op": "readall"}]))
    return out + gen_bulk.saving(r, "size", int(60 * scale)) + gen_bulk.mid(r, "m", int(16 * scale)) + gen_bulk.huge_save(r, ["none", "over", "fits", "file"]) + models.save_walks(r, "Save-walk", int(120 * scale))


def c08(r, scale):
    out = grid(r, "g", max(1, int(4 / scale)), TEXTS, ["ascii", "bin", "uni"]) + utf_edges(r, min(1, 0.25 * scale), near=True)
    some(r, out, int(220 * scale), save_sc, "s", writer=False)
    for i in range(int(60 * scale)):
        n = r.choice([1, 5, 1030])
        m = n + r.choice([-1, 0, 1])
        x = save_sc(r, i, "t", n=n, o=opt(r.choice([-1, n, n + 1, m, m + 1, max(0, m - 1)]), m, r.choice(TEXTS)), writer=False,
                    target=r.choice(["path", "dir", "temp", "filename", "deep"]))
        if x:
            out.append(x)
    some(r, out, int(120 * scale), all_sc, "a", resume=0, broken=0)
    return out + gen_bulk.saving(r, "mem", int(60 * scale)) + models.save_walks(r, "Save-walk", int(120 * scale))


def utf_edges(r, keep, near=False):
    """a character or an invalid sequence across the end of the reader's window; keep: the share that is kept"""
    out = []
    k = 0
    for seq in [u.encode() for u in UNI] + BAD + [b"\xc3\xa9\xc3", b"\xf0\x9f\x98\x80\xf0\x9f", b""]:
        for cut in range(0, len(seq) + 1):
            for pos in ("end", "mid", "tiny"):
                k += 1
                if r.random() >= keep:
                    continue
                tail = b"" if pos == "end" else r.choice([b"z", b"\xc3\xa9", b"tail"])
                pad = fill(r, r.choice([0, 1, 5]) if pos == "tiny" else 1040)
                b = body("bnd", [(head("a"), pad + seq + tail), (head("b"), seq)])
                st = b.find(CRLF + CRLF) + 4
                p = st + len(pad) + cut
                src = cut_at([st, p, p + 1] if pos == "tiny" else [p, p + r.randint(1, 2)], len(b))
                if pos == "tiny" and r.random() < 0.5:
                    src = [{"n": st}] + [{"n": 1}] * (len(b) - st)
                n = len(pad + seq + tail)
                s = r.choice([-1, -1, n, n + 1, n - 1, max(0, n - 2), len(pad) + cut])
                m = r.choice([-1, -1, n, n + 1, n - 1, len(pad) + cut, 0])
                if near:
                    s, m = r.choice([(n, -1), (n, n), (n + 1, -1), (-1, n), (n + 1, n), (n - 1, -1), (n + 2, n + 1)])
                ops = [{"op": "next"}] + ([{"op": "setmin", "n": 0}] if pos == "tiny" else [])
                ops += [{"op": "save", "o": opt(max(-1, s), max(-1, m), r.choice(["try", "force", "force", "ignore", "default"])), "target": "path"},
                        {"op": "readall"}, {"op": "next"}, {"op": "save", "o": opt(-1, -1, r.choice(TEXTS)), "target": "path"}]
                out.append(sc("u-%d" % k, b, "bnd", src, ops))
    return out


def c09(r, scale):
    out = utf_edges(r, 0.5 if scale < 2 else 1)
    some(r, out, int(200 * scale), save_sc, "s", writer=False, text="force")
    some(r, out, int(120 * scale), save_sc, "x", writer=False)
    some(r, out, int(120 * scale), all_sc, "a", resume=0, broken=0)
    # the text mode and the content type, in a whole-request save
    for t in TEXTS:
        for ct in [None, "text/plain", "TEXT/X", "image/png", "textual/x", "application/text", "text/plain; charset=us-ascii",
                   "Text/Plain;charset=\"koi8-r\"", "image/svg+xml; charset=utf-8"]:
            for d in [b"plain", "\u20ac".encode(), b"\xff", b"", b"x\xc3"]:
                b = body("bnd", [(head("a", None, ct), d), (head("b", "f", ct), d)])
                out.append(sc("ct-%s-%s-%d" % (t, ct, len(out)), b, "bnd", [], [
                    {"op": "saveall", "o": opt(r.choice([-1, 100]), r.choice([-1, 50]), t), "target": "temp", "keep": r.random() < 0.5},
                    {"op": "saveall", "o": opt(-1, -1, t), "target": "temp"}]))
    return out + models.save_walks(r, "Save-walk", int(160 * scale))


CROWD = 400


def crowd(r, pre, n, size=1):
    """so many fields in files of one directory that random names that are too short would meet"""
    b = body("bnd", [(head("a", None, None), content(r, size)) for _ in range(n)])
    o = dict(opt(-1, 0, "try"), count=-1)
    return sc(pre + "-%d" % n, b, "bnd", chunks(r, len(b)), [{"op": "saveall", "o": o, "target": r.choice(["temp", "dir", "tempdir"]), "keep": True, "rest": True}])


def c10(r, scale):
    out = [crowd(r, "crowd", CROWD)]
    some(r, out, len(CONFUSED), alike_sc, "alike")
    some(r, out, int(120 * scale), save_sc, "s")
    some(r, out, int(200 * scale), save_sc, "f", faults=1)
    some(r, out, int(60 * scale), save_sc, "ff", faults=3)
    # files that cannot be created
    for i in range(int(120 * scale)):
        n = lens(r)
        x = save_sc(r, i, "bad", n=n, o=opt(*limits_around(r, n), r.choice(TEXTS)), writer=False, target=r.choice(["exists", "notdir"]))
        if x:
            out.append(x)
    some(r, out, int(60 * scale), save_sc, "w", writer=True)
    # writers that fail after a while, in each way
    for i, e in enumerate(HARD + ["zero"]):
        for n, k in [(20, 0), (20, 7), (20, 19), (1100, 5), (1100, 1030)]:
            b = body("bnd", [(head("a"), content(r, n)), (head("b"), b"x")])
            w = r.choice([[{"n": k}], [{"n": k // 2}, {"n": k - k // 2}]]) if k > 1 else []
            out.append(sc("wf-%d-%d-%d" % (i, n, k), b, "bnd", chunks(r, len(b)), [{"op": "next"}, {"op": "writeto", "o": opt(-1, -1, "try"),
                       "w": w + [{"n": 0} if e == "zero" else {"e": e}]}, r.choice([{"op": "readall"}, {"op": "writeto", "o": opt(-1, -1, "try"), "w": []}])], extra=3))
    # and go on failing
    out += dead_writers(r)
    some(r, out, int(120 * scale), all_sc, "a", names=["a", "a", "b"])
    some(r, out, int(80 * scale), all_sc, "af", faults=1, resume=1)
    some(r, out, int(15 * scale), all_sc, "an", target="notdir")
    # the file is opened in the middle of a window
    for i in range(int(60 * scale)):
        n = r.choice([1040, 1100, 1300])
        b = body("bnd", [(head("a"), content(r, n)), (head("b"), b"x")])
        st = b.find(CRLF + CRLF) + 4
        m = r.choice([0, 1, 500, 1023, 1024, 1030])
        src = cut_at([st + m + r.randint(-2, 2), st + 1030], len(b))
        if r.random() < 0.5:
            src.insert(r.randint(0, len(src)), {"e": r.choice(HARD)})
        out.append(sc("mid-%d" % i, b, "bnd", src, [{"op": "next"}, {"op": "save", "o": opt(r.choice([-1, n, n - 1, m + 1]), m, r.choice(TEXTS)),
                   "target": r.choice(["path", "exists", "notdir", "deep"])}, {"op": "readall"}, {"op": "readall"}], extra=4))
    out += full_disk(r, scale)
    return out + gen_bulk.saving(r, "all", int(60 * scale)) + gen_bulk.mid(r, "m", int(8 * scale)) + gen_bulk.huge_save(r, ["none", "file"]) + models.save_walks(r, "Save-walk-errors", int(200 * scale))


def dead_writers(r):
    out = []
    for e in HARD:
        n, k = r.choice([(20, 0), (20, 7), (20, 19), (1100, 5), (1100, 1030)])
        b = body("bnd", [(head("a"), content(r, n)), (head("b"), b"x")])
        out.append(sc("wd-%s-%d-%d" % (e, n, k), b, "bnd", chunks(r, len(b)), [{"op": "next"}] + [{"op": "writeto", "o": opt(-1, -1, "try"), "w": [{"n": j}] if j else [],
                   "wtail": e} for j in r.sample([0, k], 2)] + [{"op": "readall"}], extra=3))
    return out


def full_disk(r, scale):
    """files that have no room for all of the data"""
    out = []
    for i in range(int(90 * scale)):
        n = lens(r)
        m = r.choice([0, 1, n // 2, max(0, n - 1), 1024])
        k = r.choice([0, 1, m - 1, m, m + 1, n - 1, n, n + 1, n // 2])
        x = save_sc(r, i, "disk", n=n, o=opt(r.choice([-1, -1, n, n - 1, k, k + 1]), m, r.choice(TEXTS)), writer=False,
                    target=r.choice(["path", "deep", "dir", "temp"]))
        if x:
            save = next(op for op in x["ops"] if op["op"] == "save")
            save["o"]["size"] = max(-1, save["o"]["size"])
            save["disk"] = max(0, k)
            if r.random() < 0.4:
                x["src"] = with_faults(r, x["src"], len(x["body"]), 1)
            out.append(x)
    for i in range(int(50 * scale)):
        x = all_sc(r, i, "diska", resume=r.choice([0, 1, 2]), names=["a", "b"], target="dir" if r.random() < 0.3 else None)
        if x:
            for op in x["ops"]:
                if op["op"] == "saveall":
                    if r.random() < 0.8:
                        op["disk"] = r.choice([0, 1, 2, 3, 4, 5, 7, 10, 1024])
                    op["o"]["mem"] = r.choice([0, 1, 2, 3, 5])
            out.append(x)
    # read to memory over several windows, then a fault of the transport at any point
    for i in range(int(60 * scale)):
        n = r.choice([20, 60])
        b = body("bnd", [(head("a", None, r.choice([None, "image/png"])), fill(r, 1024) + content(r, n, r.choice(["ascii", "uni", "bin"]))),
                         (head("b"), b"x")])
        st = b.find(CRLF + CRLF) + 4 + 1024
        m, p = r.choice([1, 3, 5, n // 2]), r.choice([1, 1, 3, 7])
        src = cut_at(list(range(st, len(b), p)), len(b))
        src.insert(r.randint(1, 1 + (m + 25) // p), {"e": r.choice(HARD + ["Interrupted"])})
        out.append(sc("spillerr-%d" % i, b, "bnd", src, [{"op": "next"}, {"op": "setmin", "n": r.choice([0, 0, 20, 60])}, {"op": "skip", "n": 1024},
                   {"op": "save", "o": opt(r.choice([-1, -1, m + 2, n]), m, r.choice(TEXTS)), "target": "path"}, {"op": "readall"}], extra=3))
    # the same, with the fault at every read
    for j, (d, m) in enumerate([(b"abc\xffdefghijkl", 100), (b"ab\xc3\xa9\xc3(klmnop", 100), (b"abcdefghijklmno", 5), (b"ab\xe2\x82", 100), (b"\xf0\x9f\x98\x80\xf0\x9f", 5)]):
        for k in range(0, len(d) + 4):
            b = body("bnd", [(head("a"), fill(r, 1024) + d), (head("b"), b"x")])
            st = b.find(CRLF + CRLF) + 4 + 1024
            src = cut_at(list(range(st, len(b), 1)), len(b))
            src.insert(1 + k, {"e": r.choice(HARD)})
            out.append(sc("everyread-%d-%d" % (j, k), b, "bnd", src, [{"op": "next"}, {"op": "setmin", "n": 0}, {"op": "skip", "n": 1024},
                       {"op": "save", "o": opt(-1, m, "try" if j != 3 else r.choice(["try", "force"])), "target": "path"}, {"op": "readall"}], extra=3))
    # read to memory over several windows, then no room for it
    for i in range(int(40 * scale)):
        n = r.choice([20, 60])
        b = body("bnd", [(head("a", None, r.choice([None, "image/png"])), fill(r, 1024) + content(r, n, r.choice(["ascii", "uni", "bin"]))),
                         (head("b"), b"x")])
        st = b.find(CRLF + CRLF) + 4 + 1024
        m = r.choice([5, n // 2, n - 1])
        src = cut_at(list(range(st, len(b), r.choice([1, 3, 7]))), len(b))
        out.append(sc("spill-%d" % i, b, "bnd", src, [{"op": "next"}, {"op": "setmin", "n": 0}, {"op": "skip", "n": 1024},
                   {"op": "save", "o": opt(r.choice([-1, -1, m + 2, n]), m, r.choice(TEXTS)), "target": "path", "disk": r.choice([0, 1, m // 2, m - 1, m, m + 1])}, {"op": "readall"}], extra=3))
    return out


def c11(r, scale):
    out = []
    some(r, out, len(CONFUSED), alike_sc, "alike")
    # every number of fields against every limit, then carrying on
    for nf in range(0, 5):
        for c in [0, 1, 2, 3, 4, 5, -1]:
            for again in (0, 1, 2, 3):
                if scale < 2 and r.random() < 0.35:
                    continue
                names = r.choice([["a"], ["a", "b"], ["a", "b", "c", "d"]])
                x = all_sc(r, 0, "n-%d-%d-%d" % (nf, c, again), nf=nf, o=opt(-1, r.choice([-1, 0, 2]), "try"), count=c, resume=0, names=names,
                           broken=0)
                if not x:
                    continue
                first = x["ops"][0]
                cc = c
                for _ in range(again):
                    if r.random() < 0.4:
                        x["ops"].append({"op": "dropents", "name": r.choice(names)})
                    cc = r.choice([c, c + 1, c + 2, -1]) if c >= 0 else -1
                    o = dict(first["o"], count=cc)
                    x["ops"].append(dict(first, o=o, keep=r.random() < 0.5))
                out.append(x)
    # many fields of one name
    for i in range(int(12 * scale)):
        x = all_sc(r, i, "many", nf=r.choice([9, 10, 17, 33]), o=opt(-1, r.choice([-1, 0, 2]), "try"), names=r.choice([["a"], ["a", "a", "a", "b"]]), resume=1,
                   count=r.choice([-1, 8, 9, 16, 40]), broken=0)
        if x:
            out.append(x)
    some(r, out, int(150 * scale), all_sc, "r", resume=2)
    some(r, out, int(100 * scale), all_sc, "m", resume=3, names=["a"])
    some(r, out, int(60 * scale), all_sc, "f", resume=3, faults=2)
    return (out + gen_bulk.counts(r, "c") + models.entries_walks(r, "Entries-walk", int(120 * scale)) +
            models.entries_walks(r, "Entries-walk-errors", int(80 * scale)))


EVIL = ["../evil", "../../tmp/evil", "..", ".", "a/b", "/evil", "x\x00y".replace("\x00", ""), "con", "a" * 200, "-rf", "~", "%2e%2e%2f", "..\\evil", ""]


def c12_server(r, scale):
    out = []
    k = 0
    # many files in one directory: their names must not collide
    for i in range(2):
        nf = 250
        b = body("bnd", [(head("a%d" % (j % 7), "same.txt"), b"%d" % j) for j in range(nf)])
        out.append({"id": "many-%d" % i, "kind": "dir", "precious": i == 1, "spec": {"precious": True},
                    "ops": [{"op": "save", "h": 1, "body": list(b), "mem": 0, "n": nf, "target": ["temp", "dir"][i]}, {"op": "read"}, {"op": "drop", "h": 1}]})
    for name in EVIL:
        for tgt in ["temp", "dir", "prefix", "tempdir", "reldir"]:
            k += 1
            h1, h2 = head(name, name), head(name, "ok")
            b = body("bnd", [(h1, b"12345"), (h2, b"67890"), (head("z", name), b"abc")])
            out.append(sc("evil-%d" % k, b, "bnd", [], [{"op": "saveall", "o": opt(r.choice([-1, 5]), r.choice([0, 0, 2]), r.choice(TEXTS)),
                                                          "target": tgt}]))
            b = body("bnd", [(h1, b"12345"), (h2, b"67890")])
            out.append(sc("evilf-%d" % k, b, "bnd", [], [{"op": "next"}, {"op": "save", "o": opt(-1, 0, "try"), "target": r.choice(["temp", "dir", "path", "reldir", "relpath"])},
                       {"op": "next"}, {"op": "save", "o": opt(-1, 0, "try"), "target": r.choice(["temp", "dir"])}]))
    for i in range(int(60 * scale)):
        n = lens(r, 0.1)
        x = save_sc(r, i, "ex", n=n, o=opt(r.choice([-1, n]), r.choice([0, 0, 1, n]), r.choice(TEXTS)), writer=False,
                    target=r.choice(["exists", "exists", "notdir", "path", "dir", "temp", "filename", "deep"]))
        if x:
            out.append(x)
    # every name
    for i, (name, tgt) in enumerate(itertools.product(FILENAMES, ["path", "filename", "relpath"])):
        x = save_sc(r, i, "name", n=5, o=opt(r.choice([-1, 3]), r.choice([0, 0, 2]), r.choice(TEXTS)), writer=False, target=tgt)
        if x:
            for op in x["ops"]:
                if op["op"] == "save" and op["target"] == tgt:
                    op["name"] = name
            out.append(x)
    # the options for opening the file are the caller's to change
    for i in range(int(40 * scale)):
        n = lens(r, 0.1)
        o = dict(opt(r.choice([-1, n, 5]), r.choice([0, 0, 1, n]), r.choice(TEXTS)), open="replace")
        x = save_sc(r, i, "open", n=n, o=o, writer=False, target=r.choice(["exists", "exists", "exists", "path", "deep", "temp", "notdir"]))
        if x:
            out.append(x)
        x = save_sc(r, i, "mode", n=n, o=dict(opt(r.choice([-1, n, 5]), r.choice([0, 0, 1, n // 2]), r.choice(TEXTS)), open="private"), writer=False,
                    target=r.choice(["path", "deep", "temp", "dir", "filename"]))
        if x:
            out.append(x)
    out.append(crowd(r, "crowd", CROWD))
    some(r, out, int(100 * scale), all_sc, "a", o=opt(r.choice([-1, 5]), 0, "try"), count=-1)
    some(r, out, int(60 * scale), all_sc, "b", resume=2)
    some(r, out, int(60 * scale), all_sc, "c", o=dict(opt(-1, 0, "try"), open="private"), resume=1)
    return out


def c12(r, scale):
    return c12_server(r, scale) + models.dir_walks(r, int(150 * scale))


# names a caller may choose for a file; `#` is replaced by a number
FILENAMES = ["sub/f#", "deep/er/f#", "a b#", "\u00e9#.txt", ".hid#", "f#.tar.gz", "F#.TXT", "x" * 200 + "#", "f#.", "-f#", "%2e#", "a\\b#", "~f#", " f#", "f# ", "f#.d/f"]


def varied(gen):
    """the same saves, with the settings made in other orders and the builder used again"""
    def f(r, scale):
        out = gen(r, scale)
        for x in out:
            if x["kind"] != "server":
                continue
            for op in x["ops"]:
                if "o" in op:
                    if r.random() < 0.6:
                        op["o"] = dict(op["o"], turn=r.randrange(8))
                    if r.random() < 0.15:
                        op["o"] = dict(op["o"], before=r.choice([-1, 0, 1, 3]))
                    if r.random() < 0.1:
                        op["o"] = dict(op["o"], open=r.choice(["none", "replace", "private"]))
                    if op["op"] == "saveall" and op["target"] == "prefix" and r.random() < 0.7:
                        op["name"] = r.choice(["multipart-rs", "", "a b", "\u00e9.", ".tmp", "x" * 100, "-p", "p.q"])
                    if op["op"] == "save" and op["target"] in ("path", "filename", "relpath", "deep") and "name" not in op and r.random() < 0.35:
                        op["name"] = r.choice(FILENAMES)
                    if op["op"] == "save" and r.random() < 0.12:
                        op["times"] = r.choice([2, 2, 3])
        return out
    f.__name__ = gen.__name__
    return f


GENERATORS = {k: varied(g) for k, g in [("C07", c07), ("C08", c08), ("C09", c09), ("C10", c10), ("C11", c11), ("C12", c12)]}
