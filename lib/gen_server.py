"""Scenarios for the server side: bodies x transport scripts x caller programs.

Nothing here says what is right: a scenario only fixes the inputs. What the code may do with them
is decided by the specification (spec/Server.tla)."""
import random
import gen_bulk
import models

CRLF = b"\r\n"
STYLES = ["borrow", "owned", "cont", "inplace", "bcont", "binplace", "foreach", "mut"]
HARD = ["WouldBlock", "TimedOut", "ConnectionReset", "UnexpectedEof", "Other", "BrokenPipe", "InvalidData",
        "ConnectionAborted", "ConnectionRefused", "NotConnected", "NotFound", "PermissionDenied", "AlreadyExists", "InvalidInput",
        "WriteZero", "OutOfMemory", "AddrInUse", "StorageFull", "Unsupported", "NetworkDown"]
BNDS = ["B", "bnd", "a-b", "--x", "-", "X" * 8, "0123456789", "----WebKitFormBoundary7MA4YWxkTrZu0gW",
        "q" * 70, "AAAA", "a.b_c", "z'()+,/:?"]


def head(name="a", filename=None, ctype=None):
    h = b'Content-Disposition: form-data; name="' + name.encode() + b'"'
    if filename is not None:
        h += b'; filename="' + filename.encode() + b'"'
    if ctype is not None:
        h += CRLF + b"Content-Type: " + ctype.encode()
    return h


def body(bnd, parts, pre=b"", post=CRLF, close=True):
    """parts: [(head, data)]"""
    d = b"--" + bnd.encode()
    out = pre
    if not parts:
        return out + d + (b"--" + post if close else b"")
    for h, data in parts:
        out += d + CRLF + h + CRLF + CRLF + data + CRLF
    return out + d + (b"--" + post if close else b"")


def count_delims(b, bnd):
    d = b"--" + bnd.encode()
    n = i = 0
    while True:
        i = b.find(d, i)
        if i < 0:
            return n
        n += 1
        i += len(d)


def frags(bnd):
    d = CRLF + b"--" + bnd.encode()
    fs = [b"", b"\r", b"\n", CRLF, b"-", b"--", b"\r\n\r\n", b"\r\r\n", b"\n\r", b"\r\n-", b"\r\n--", b"--\r\n",
          b"\r-", b"\n--", b"-\r\n", b"\r\r", b"\x00", b"\xff"]
    fs += [d[:k] for k in range(1, len(d))]
    fs += [d[2:k] for k in range(3, len(d))]
    fs += [d[:-1] + b"!", d[2:-1] + b"\r\n", b"\r\n" + d[:-1]]
    return fs


def rand_data(r, bnd, maxfrag=5, filler=0):
    fs = frags(bnd)
    for _ in range(50):
        out = b""
        for _ in range(r.randint(0, maxfrag)):
            k = r.random()
            if k < 0.6:
                out += r.choice(fs)
            elif k < 0.9:
                out += bytes(r.choice(b"abcxyz019 ") for _ in range(r.randint(0, 6)))
            else:
                out += bytes(r.randrange(256) for _ in range(r.randint(0, 5)))
        if filler:
            cut = r.randint(0, len(out))
            out = out[:cut] + fill(r, filler) + out[cut:]
        # the data must not hold a delimiter, alone or together with what surrounds it
        if count_delims(CRLF + out + CRLF, bnd) == 0:
            return out
    return b""


def fill(r, n):
    """n bytes that cannot start a delimiter and where a shift is noticed"""
    alpha = b"abcdefghijklmnopqrstuvwyz"
    k = r.randrange(25)
    return bytes(alpha[(k + i * i + i // 7) % 25] for i in range(n))


def ok(b, bnd, n):
    return count_delims(b, bnd) == n + 1


def chunks(r, n, how=None):
    how = how or r.choice(["all", "all", "one", "small", "mix", "two", "big"])
    if how == "all":
        return []
    if how == "one":
        return [{"n": 1}] * n
    if how == "two":
        k = r.randint(1, max(1, n))
        return [{"n": k}, {"n": max(1, n - k)}]
    out, s = [], 0
    while s < n:
        if how == "small":
            k = r.randint(1, 9)
        elif how == "big":
            k = r.choice([1, 2, 500, 1000, 1023, 1024, 1025, 1030, 1100, 2048])
        else:
            k = r.choice([1, 1, 2, 3, 5, 8, 13, 30, 100])
        out.append({"n": k})
        s += k
    return out


def cut_at(cuts, n):
    """chunks that end exactly at the given offsets"""
    out, p = [], 0
    for c in sorted(set(c for c in cuts if 0 < c < n)):
        out.append({"n": c - p})
        p = c
    return out + [{"n": max(1, n - p)}]


def rand_body(r, bnd=None, nparts=None, big=0.3, closing=True):
    bnd = bnd or r.choice(BNDS)
    for _ in range(100):
        n = nparts if nparts is not None else r.choice([0, 1, 1, 2, 2, 3, 4])
        parts = []
        for i in range(n):
            f = r.choice([0, 0, 0, 1000, 1024, 1030, 1500, 2100]) if r.random() < big else 0
            fn = r.choice([None, None, "f.txt", "x y.bin"])
            ct = r.choice([None, None, None, "text/plain", "image/png", "application/octet-stream", "text/plain; charset=us-ascii", "image/svg+xml", "multipart/mixed; boundary=inner"])
            parts.append((head(r.choice(["a", "b", "field-%d" % i, "n x"]), fn, ct), rand_data(r, bnd, filler=f)))
        d = b"--" + bnd.encode()
        pre = r.choice([b"", b"", b"", CRLF, b"preamble\r\n", b"-\r\n", b"two\r\nlines\r\n\r\n", d[:-1] + CRLF, CRLF + d[:-1] + b"\r\n",
                        head("x") + b"\r\n\r\nno part\r\n"])
        # what follows the end of the request is not part of it, whatever it looks like
        post = r.choice([CRLF, b"", CRLF + b"epilogue", b"x", CRLF, b"", CRLF + body(bnd, [(head("ghost"), b"boo")]), CRLF + d, CRLF + d + CRLF,
                         d + b"--", CRLF + d + b"--" + CRLF, CRLF + d + b"!!", body(bnd, [(head("g"), b"")], close=False)])
        if ok(body(bnd, parts, pre), bnd, n):
            return body(bnd, parts, pre, post), bnd, parts
    raise Exception("no body")


def sc(i, b, bnd, src=(), ops=(), style="borrow", **kw):
    d = {"id": i, "kind": "server", "body": list(b), "bnd": bnd, "src": list(src), "ops": list(ops), "style": style}
    d.update(kw)
    return d


def how_read(r):
    k = r.random()
    if k < 0.35:
        return {"op": "readall"}
    if k < 0.6:
        return {"op": "drain", "n": r.choice([0, 0, 1, 3, 7, 100])}
    return {"op": "pieces", "n": r.choice([1, 2, 3, 5, 17, 64, 500, 1024, 4096])}


def reads(r, n, style=None):
    """a program that reads every field with some kind of call"""
    ops = []
    for _ in range(n):
        ops.append({"op": "next"})
        if r.random() < 0.25:
            ops.append({"op": "setmin", "n": r.choice([0, 0, 1, 10, 100])})
        h = how_read(r)
        if h["op"] == "pieces" and h["n"] < 8 and r.random() < 0.7:
            h["n"] = 64
        ops.append(h)
    return ops


TAILS = [CRLF, b"--"]


def sweep_windows(r, every=1):
    """The end of the reader's window falls on each offset around a delimiter."""
    out = []
    k = 0
    for bnd in ["B", "a-b", "--x", "bound"]:
        d = b"--" + bnd.encode()
        ends = [b"", b"\r", b"\n", CRLF, b"\r\r", b"-", b"\r\n-", b"\r\n--", CRLF + d[:-1], d[:-1], b"\r\n\r", b"\n\r\n"]
        for e in ends:
            for more in (True, False):
                for delta in range(-4, len(d) + 7):
                    k += 1
                    if k % every:
                        continue
                    data = fill(r, r.choice([1030, 1100, 1400])) + e
                    parts = [(head("a"), data)]
                    if more:
                        parts.append((head("b"), b"tail" + e))
                    b = body(bnd, parts)
                    if not ok(b, bnd, len(parts)):
                        continue
                    at = b.find(CRLF + d, b.find(data) + len(data) - 1) + 2
                    p = at + delta
                    # the second read is short, too: the rest of the delimiter trickles in
                    src = cut_at([p] + r.choice([[], [p + 1], [p + 2], [p + 1, p + 2, p + 3]]), len(b))
                    op = r.choice([{"op": "readall"}, {"op": "drain", "n": 0}, {"op": "drain", "n": 100},
                                   {"op": "pieces", "n": 600}])
                    out.append(sc("w-%s-%d" % (bnd, k), b, bnd, src, [{"op": "next"}, op]))
    return out


def sweep_long(r, every=1):
    """The same for boundaries of up to 70 characters: each length of the delimiter's part in the window."""
    out, k = [], r.randrange(every)
    for bnd in ["q" * 70, "".join(chr(97 + i % 26) for i in range(70)), "ab" * 33 + "-_.", "-" * 28 + "4711081512345678901234567890"]:
        d = b"--" + bnd.encode()
        for delta in range(-2, len(d) + 5):
            for more in (True, False):
                k += 1
                if k % every:
                    continue
                e = r.choice([b"", b"", b"\r", CRLF, CRLF + d[:-1], d[:40], CRLF + d[:66]])
                parts = [(head("a"), fill(r, r.choice([1030, 1100])) + e)] + [(head("b"), b"tail" + e)] * more
                b = body(bnd, parts)
                if not ok(b, bnd, len(parts)):
                    continue
                p = b.find(CRLF + d, 1030) + 2
                while not b[p + len(d):].startswith((CRLF + b"Content", b"--")):
                    p = b.find(CRLF + d, p) + 2
                src = cut_at([p + delta] + r.choice([[], [p + delta + 1], [p + delta + 2]]), len(b))
                op = r.choice([{"op": "readall"}, {"op": "drain", "n": 0}, {"op": "pieces", "n": 600}])
                out.append(sc("l-%d" % k, b, bnd, src, [{"op": "next"}, op]))
    return out


def sweep_tiny(r, every=1):
    """The smallest possible window: only what the delimiter needs. The reader always fetches about a
    thousand bytes with the headers, so what matters comes after them."""
    out = []
    k = 0
    for bnd in ["B", "a-b", "-", "boundary-0123456789"]:
        d = b"--" + bnd.encode()
        near = [CRLF + d[:j] for j in range(0, len(d))]
        ends = [b"", b"\r", b"\n", b"\r\r", b"\r\n\r\n", b"\r\n\r"] + near
        for e in ends:
            for off in range(-len(d) - 4, 5):
                k += 1
                if k % every:
                    continue
                h = r.choice(["one", "one", "small", "two"])
                parts = [(head("a"), b""), (head("b"), r.choice([b"", b"\r", e]))]
                st = body(bnd, parts[:1]).find(b"\r\n\r\n") + 4
                mid = r.choice([b"", b"", r.choice(ends) + b"!" + fill(r, r.randint(0, 2 * len(d)))])
                pad = fill(r, 1024 - st + r.randint(0, 9)) + mid + fill(r, r.choice([0, 1, 2, 5, 3 * len(d)]))
                parts[0] = (head("a"), pad + e)
                b = body(bnd, parts)
                if not ok(b, bnd, 2):
                    continue
                at = st + len(pad) + len(e) + 2  # where the delimiter starts
                first = r.choice([1024, max(1024, at + off)])
                rest = len(b) - first
                src = [{"n": first}]
                if h == "two":
                    src += cut_at([x - first for x in (at + off, at + off + 1, at + off + 3) if x > first] or [1], rest)
                else:
                    src += chunks(r, rest, h)
                ops = [{"op": "next"}, {"op": "setmin", "n": r.choice([0, 0, 1, len(d)])},
                       r.choice([{"op": "readall"}, {"op": "drain", "n": 0}, {"op": "drain", "n": 1}, {"op": "drain", "n": 300},
                                 {"op": "pieces", "n": r.choice([100, 700, 1024])}]),
                       {"op": "next"}, {"op": "setmin", "n": 0}]
                if r.random() < 0.3:
                    ops[2:3] = [{"op": "drain", "n": 0, "stop": True}, {"op": "next"}, {"op": "readall"}]
                out.append(sc("t-%s-%d" % (bnd, k), b, bnd, src, ops))
    return out


def c01(r, scale):
    out = sweep_windows(r, max(1, int(4 / scale))) + sweep_tiny(r, max(1, int(3 / scale))) + sweep_long(r, max(1, int(3 / scale)))
    for i in range(int(250 * scale)):
        b, bnd, parts = rand_body(r)
        out.append(sc("r-%d" % i, b, bnd, chunks(r, len(b)), reads(r, len(parts)), r.choice(STYLES)))
    # the largest header blocks which must be understood, however they arrive
    for size in [921, 950, 980, 999, 1000]:
        for bnd in ["B", "bnd", "q" * 70]:
            for c in ["one", "small", "all", "two"]:
                h = head("a", "f" * (size - len(head("a", "")) - 4))
                parts = [(head("z"), b"zero"), (h, r.choice([b"", b"data", fill(r, 60), b"\r\n", b"\r", b"x\r\n"])), (h, b"d"), (head("b"), b"end")]
                b = body(bnd, parts)
                out.append(sc("largest-%d-%s-%s" % (size, bnd[:3], c), b, bnd, chunks(r, len(b), c), reads(r, 4), r.choice(STYLES)))
    return out + gen_bulk.reading(r, "all", int(25 * scale), True) + gen_bulk.buffer_ends(r, max(1, int(2 / scale))) + gen_bulk.huge_save(r, ["read", "skip"]) + models.reader_walks(r, "Reader-walk", int(80 * scale))


def program(r, nparts, saves=False):
    ops = []
    for _ in range(nparts + 1):
        ops.append({"op": "next"})
        for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
            k = r.random()
            if k < 0.3:
                ops.append({"op": "read", "n": r.choice([0, 1, 2, 3, 7, 20, 100, 1000, 1024, 3000])})
            elif k < 0.55:
                ops.append({"op": "fill"})
            elif k < 0.75:
                ops.append({"op": "consume", "n": r.choice([0, 1, 2, 5, 100, 1000, -1, -2, -3, -10])})
            elif k < 0.87:
                ops.append({"op": "setmin", "n": r.choice([0, 0, 1, 50, 1024, 2000, 8192, 9000, 20000, 65536])})
            elif k < 0.93:
                ops.append(how_read(r))
            else:
                ops += [{"op": "fill"}, {"op": "consume", "n": -1}]
        if r.random() < 0.6:
            ops.append({"op": "end"})
    return ops


def sweep_abandon(r, every=1):
    """Leave a field at each point around its end, with the delimiter arriving in pieces."""
    out, k = [], 0
    for bnd in ["B", "a-b"]:
        d = b"--" + bnd.encode()
        for e in [b"", b"\r", CRLF, b"\r\n-", CRLF + d[:-1]]:
            for delta in range(-3, len(d) + 6):
                for how in ("none", "fill", "fillpart", "read", "readmost", "fillall"):
                    k += 1
                    if k % every:
                        continue
                    data = fill(r, r.choice([0, 5, 1040, 1200])) + e
                    parts = [(head("a"), data), (head("b"), b"second" + e), (head("c"), e)]
                    b = body(bnd, parts)
                    if not ok(b, bnd, 3):
                        continue
                    at = b.find(CRLF + d, 4) + 2
                    p = at + delta
                    src = cut_at([p, p + r.randint(1, 3)], len(b))
                    ops = [{"op": "next"}]
                    if how == "fill":
                        ops.append({"op": "fill"})
                    elif how == "fillpart":
                        ops += [{"op": "fill"}, {"op": "consume", "n": -1 - r.randint(1, 3)}]
                    elif how == "fillall":
                        ops += [{"op": "fill"}, {"op": "consume", "n": -1}, {"op": "fill"}]
                    elif how == "read":
                        ops.append({"op": "read", "n": r.choice([1, 3, 1000])})
                    elif how == "readmost":
                        ops.append({"op": "read", "n": max(1, len(data) - r.randint(0, 3))})
                    ops += [{"op": "next"}, {"op": "readall"}, {"op": "next"}, {"op": "fill"}]
                    out.append(sc("ab-%s-%d" % (bnd, k), b, bnd, src, ops))
    return out


def sweep_minbuf(r, every=1):
    """Minimum buffer sizes around the default capacity, with fields larger than it."""
    out, k = [], 0
    for m in [1, 100, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 9000, 12000]:
        for n in [10, 1000, 5000, 9000]:
            k += 1
            if k % every or (n > 5000 and m < 8000 and k % 2):
                continue
            data = fill(r, n)
            b = body("bnd", [(head("a"), data), (head("b"), b"x")])
            ops = [{"op": "next"}, {"op": "setmin", "n": m},
                   r.choice([{"op": "readall"}, {"op": "drain", "n": 0}, {"op": "pieces", "n": 3000}]), {"op": "next"}]
            out.append(sc("mb-%d" % k, b, "bnd", chunks(r, len(b), r.choice(["all", "big"])), ops))
    return out


def sweep_shown(r, every=1):
    """A minimum buffer size, and peeks after consuming parts of what was shown."""
    out, k = [], 0
    for m in [50, 500, 1025, 3000, 8193, 11000]:
        for share in [0.1, 0.3, 0.5, 0.7, 0.95]:
            for kind in ["all", "big", "small"]:
                k += 1
                if k % every or (m > 3000 and kind == "small"):
                    continue
                data = fill(r, int(m * r.choice([1.5, 2.2, 3])))
                b = body("bnd", [(head("a"), data), (head("b"), b"x")])
                ops = [{"op": "next"}, {"op": "setmin", "n": m}]
                for _ in range(4):
                    ops += [{"op": "fill"}, {"op": "consume", "n": max(1, int(m * share) + r.randint(-2, 2))}]
                ops += [{"op": "fill"}, {"op": "consume", "n": -2}, {"op": "fill"}, {"op": "next"}, {"op": "fill"}, {"op": "end"}]
                out.append(sc("sh-%d" % k, b, "bnd", chunks(r, len(b), kind), ops))
    return out


def c02(r, scale):
    out = sweep_shown(r, max(1, int(2 / scale))) + sweep_abandon(r, max(1, int(2 / scale))) + sweep_minbuf(r, max(1, int(2 / scale))) + sweep_tiny(r, max(1, int(5 / scale)))
    for i in range(int(350 * scale)):
        b, bnd, parts = rand_body(r, big=0.35)
        out.append(sc("p-%d" % i, b, bnd, chunks(r, len(b)), program(r, len(parts)), r.choice(STYLES), extra=3))
    return out + gen_bulk.reading(r, "any", int(40 * scale)) + gen_bulk.huge_save(r, ["read", "skip"]) + models.reader_walks(r, "Reader-walk", int(250 * scale))


def c03(r, scale):
    out = []
    # every truncation offset of small bodies
    for j, bnd in enumerate(["B", "a-b", "--x"]):
        for v in range(2):
            parts = [(head("a"), rand_data(r, bnd)), (head("f", "x", "image/png"), rand_data(r, bnd))]
            b = body(bnd, parts, pre=r.choice([b"", b"pre\r\n"]))
            if not ok(b, bnd, 2):
                continue
            end = b.rfind(b"--" + bnd.encode()) + 2 + len(bnd) + 2
            for n in range(0, end):
                if scale < 2 and (n + v) % 2:
                    continue
                ops = r.choice([[], [], [{"op": "next"}, {"op": "end"}], program(r, 2)])
                out.append(sc("cut-%d-%d-%d" % (j, v, n), b[:n], bnd, chunks(r, n), ops, r.choice(STYLES), extra=3))
    # truncation around a delimiter with the window ending there
    for i in range(int(120 * scale)):
        bnd = r.choice(BNDS[:6])
        d = b"--" + bnd.encode()
        data = fill(r, r.choice([1030, 1200])) + r.choice(frags(bnd))
        b = body(bnd, [(head("a"), data)] + ([(head("b"), b"x")] if r.random() < 0.5 else []))
        at = b.find(CRLF + d, 4) + 2
        n = at + r.randint(-4, len(d) + 3)
        p = at + r.randint(-4, len(d) + 3)
        ops = r.choice([[], [{"op": "next"}, {"op": "end"}], [{"op": "next"}, {"op": "fill"}, {"op": "end"}],
                        [{"op": "next"}, {"op": "drain", "n": 0}]])
        out.append(sc("cutw-%d" % i, b[:n], bnd, cut_at([p], n), ops, r.choice(STYLES), extra=3))
    # damaged delimiter tails
    for i in range(int(250 * scale)):
        b, bnd, parts = rand_body(r, nparts=r.choice([0, 1, 2, 3]), big=0.2)
        d = b"--" + bnd.encode()
        occ = []
        p = b.find(d)
        while p >= 0:
            occ.append(p)
            p = b.find(d, p + len(d))
        at = r.choice(occ) + len(d)
        bad = r.choice([b"\r\r", b"\n\r", b"-\r", b"\r-", b"-\n", b"\n\n", b" \r", b"xx", b"\x00\x00", b"--"[:1] + b"x",
                        b"\r\n"[:1] + b"x", b"x-", b"x\n", bytes([r.randrange(256), r.randrange(256)])])
        if bad in (CRLF, b"--"):
            continue
        b2 = b[:at] + bad + b[at + 2:]
        if count_delims(b2, bnd) != len(parts) + 1:
            continue
        out.append(sc("tail-%d" % i, b2, bnd, chunks(r, len(b2)), r.choice([[], reads(r, len(parts)), program(r, len(parts))]),
                      r.choice(STYLES), extra=3))
    # damaged header blocks
    for i in range(int(60 * scale)):
        bnd = r.choice(BNDS[:6])
        d = b"--" + bnd.encode()
        bad = r.choice([b"", b"no colon here", b"Content-Type: text/plain", b"Content-Disposition: attachment; name=\"a\"",
                        b"Content-Disposition: form-data", b"Content-Disposition: form-data; filename=\"x\"",
                        b": x", b"\x00: y", head("a") + CRLF + b"Content-Type: nonsense"])
        parts = [(head("a"), b"one"), (bad, b"two"), (head("c"), b"three")]
        r.shuffle(parts)
        b = body(bnd, parts)
        if r.random() < 0.3:  # no blank line at all
            b = b.replace(CRLF + CRLF, CRLF, r.choice([1, 2]))
        if not ok(b, bnd, 3):
            continue
        out.append(sc("bh-%d" % i, b, bnd, chunks(r, len(b)), [], r.choice(STYLES), extra=5))
    # noise
    for i in range(int(60 * scale)):
        bnd = r.choice(BNDS[:6])
        b = b"".join(r.choice(frags(bnd) + [b"--" + bnd.encode(), b"--" + bnd.encode() + CRLF, CRLF + b"--" + bnd.encode() + CRLF,
                                             b"--" + bnd.encode() + b"--", head("a"), head("b") + b"\r\n\r\n"])
                     for _ in range(r.randint(0, 9)))
        out.append(sc("noise-%d" % i, b, bnd, chunks(r, len(b)), [], r.choice(STYLES), extra=3))
    return out + models.reader_walks(r, "Reader-walk-cut", int(100 * scale))


def with_faults(r, src, n, k=1, kinds=None):
    """insert k errors into a transport script covering n bytes"""
    src = list(src) or [{"n": max(1, n)}]
    for _ in range(k):
        # split a chunk at random so that the error can come at any offset
        i = r.randrange(len(src))
        s = src[i]
        e = {"e": r.choice(kinds or (HARD + ["Interrupted"] * 3))}
        if "n" in s and s["n"] > 1 and r.random() < 0.7:
            a = r.randint(1, s["n"] - 1)
            src[i:i + 1] = [{"n": a}, e, {"n": s["n"] - a}]
        else:
            src.insert(i, e)
    return src


def every_fault(r, parts, kinds, saves=False):
    """an error of each kind wherever the transport is read"""
    out = []
    for kind in kinds:
        for n in [1, 4, 9, 30]:
            bnd = r.choice(BNDS[:6])
            b = body(bnd, parts(r, bnd))
            if not ok(b, bnd, 2):
                continue
            src = []
            for k in range(0, len(b), n):
                src += [{"n": n}] + [{"e": kind}] * r.choice([1, 1, 1, 2])
            if n == 1:  # not in the data alone: where the headers are, too
                at = r.randint(0, len(b) - 40)
                src = ([{"n": at}] if at else []) + src[:80]
            ops = []
            for _ in range(2):
                ops.append({"op": "next"})
                if r.random() < 0.5:
                    ops += [r.choice([{"op": "drain", "n": 2}, {"op": "pieces", "n": 3}, {"op": "end"}, {"op": "fill"}])] * r.randint(1, 4)
            out.append(sc("every-%s-%d" % (kind, n), b, bnd, src, r.choice([ops, []]), r.choice(STYLES), extra=90))
    return out


def c04(r, scale):
    out = []
    for _ in range(max(1, int(scale / 2))):
        out += every_fault(r, lambda r, bnd: [(head("a"), fill(r, 12)), (head("f", "x", "image/png"), b"data" + rand_data(r, bnd))], HARD + ["Interrupted"])
    # an error at every offset of a small request
    for j, bnd in enumerate(["B", "a-b"]):
        parts = [(head("a"), rand_data(r, bnd)), (head("f", "x", "image/png"), b"data" + rand_data(r, bnd))]
        b = body(bnd, parts)
        if not ok(b, bnd, 2):
            continue
        for n in range(0, len(b) + 1):
            if scale < 2 and (n + j) % 2:
                continue
            src = ([{"n": n}] if n else []) + [{"e": r.choice(HARD + ["Interrupted"])}] * r.choice([1, 1, 2])
            ops = r.choice([[], [{"op": "next"}, {"op": "drain", "n": 2}], [{"op": "next"}, {"op": "pieces", "n": 3}], program(r, 2)])
            out.append(sc("at-%d-%d" % (j, n), b, bnd, src + chunks(r, len(b)), ops, r.choice(STYLES), extra=5))
    # in a header block of which some has come
    for i in range(int(70 * scale)):
        bnd = r.choice(BNDS[:6])
        hs = [rand_head(r), head("b", "y", "image/png")]
        b = body(bnd, [(hs[0], b"one"), (hs[1], b"two")])
        if not ok(b, bnd, 2):
            continue
        n = len(bnd) + 4 if r.random() < 0.6 else b.index(bnd.encode(), 4) + len(bnd) + 2
        h = len(hs[0] if n == len(bnd) + 4 else hs[1]) + 4
        cuts = sorted(r.sample(range(1, h), min(h - 1, r.choice([1, 1, 2, 3]))))
        src, at = [{"n": n}], 0
        for c in cuts:
            src.append({"n": c - at})
            at = c
            if r.random() < 0.8:
                src += [{"e": r.choice(HARD + ["WouldBlock", "WouldBlock", "Interrupted"])}] * r.choice([1, 1, 2])
        out.append(sc("head-%d" % i, b, bnd, src, [], r.choice(STYLES), extra=5))
    # in a header block larger than the read buffer's minimum (which may be refused, but not silently retried)
    for i in range(int(24 * scale)):
        bnd = r.choice(BNDS[:6])
        big = r.choice([1030, 1100, 1500, 2100]) + r.randint(-8, 8)
        pad = b"X-Pad: " + fill(r, big).replace(b"\r", b"r").replace(b"\n", b"n")
        h = r.choice([lambda: head("a", "x") + CRLF + pad, lambda: pad + CRLF + head("a", "x")])()
        pre = r.choice([[], [(head("p"), b"zero")]])
        b = body(bnd, pre + [(h, b"one"), (head("b", "y", "image/png"), b"two")])
        if not ok(b, bnd, 2 + len(pre)):
            continue
        n = b.index(h)
        src = [{"n": n}] if n else []
        at = 0
        for _ in range(r.choice([1, 1, 2])):
            c = r.choice([r.randint(1020, len(h)), len(h) + r.randint(0, 3), r.randint(1, 1040)])
            if c > at:
                src.append({"n": c - at})
                at = c
            src += [{"e": r.choice(HARD + ["WouldBlock", "WouldBlock", "TimedOut"])}] * r.choice([1, 1, 2])
        out.append(sc("bighead-%d" % i, b, bnd, src, [], r.choice(STYLES), extra=5))
    # around a delimiter at the end of the window
    for i in range(int(200 * scale)):
        bnd = r.choice(BNDS[:6])
        d = b"--" + bnd.encode()
        data = fill(r, r.choice([1030, 1100])) + r.choice([b"", b"\r", CRLF, b"\r\n--"])
        b = body(bnd, [(head("a"), data), (head("b"), b"x")])
        at = b.find(CRLF + d, 4) + 2
        p = at + r.randint(-4, len(d) + 4)
        q = p + r.choice([0, 0, 1, 2, 3])
        src = [{"n": p}]
        if q > p:
            src.append({"n": q - p})
        src.append({"e": r.choice(HARD + ["Interrupted"])})
        ops = [{"op": "next"}] + r.choice([[{"op": "readall"}, {"op": "readall"}], [{"op": "fill"}, {"op": "fill"}, {"op": "readall"}],
                                           [{"op": "read", "n": 900}, {"op": "pieces", "n": 500}],
                                           [{"op": "drain", "n": 0}], [{"op": "drain", "n": 400}], [{"op": "end"}],
                                           [{"op": "fill"}, {"op": "consume", "n": -1}, {"op": "end"}]])
        out.append(sc("win-%d" % i, b, bnd, src, ops, r.choice(STYLES), extra=4))
    # the transport stays broken from some offset on
    for i in range(int(60 * scale)):
        b, bnd, parts = rand_body(r, big=0.2)
        n = r.randint(0, len(b))
        out.append(sc("dead-%d" % i, b[:n], bnd, chunks(r, n), r.choice([[], program(r, 2)]), r.choice(STYLES), extra=3,
                      tail=r.choice(HARD)))
    for i in range(int(250 * scale)):
        b, bnd, parts = rand_body(r, big=0.3)
        src = with_faults(r, chunks(r, len(b)), len(b), r.choice([1, 1, 2, 4]))
        out.append(sc("rnd-%d" % i, b, bnd, src, r.choice([program, reads])(r, len(parts)), r.choice(STYLES), extra=6))
    # a save of text whose transport fails before, within and after what is not valid
    for j, d in enumerate([b"abc", "h\u00e9\u4e16".encode(), b"ab\xffcd", b"\xffab", b"abc\xff", b"ab\xe4\xb8", b"a\xf0\x9f\x98b", b"\xc3", b""]):
        bnd = "bnd"
        parts = [(head("a"), d), (head("b"), b"x")]
        b = body(bnd, parts)
        at = b.index(b"\r\n\r\n") + 4
        for k in range(len(d) + 3):
            for t in ["try", "force", "ignore"]:
                o = {"size": r.choice([-1, -1, 1000]), "mem": r.choice([-1, -1, 1000, 2]), "text": t}
                e = r.choice(HARD)
                src = ([{"n": at + k - 1}, {"n": 1}] if r.random() < 0.3 else [{"n": at + k}]) + [{"e": e}] + chunks(r, len(b))
                if r.random() < 0.4:
                    ops = [{"op": "saveall", "o": dict(o, count=-1), "target": "temp", "keep": True, "rest": True}]
                else:
                    ops = [{"op": "next"}] + [{"op": "save", "o": o, "target": r.choice(["path", "dir", "temp"])}] * r.choice([1, 2]) + [{"op": "readall"}]
                out.append(sc("txt-%d-%d-%s" % (j, k, t), b, bnd, src, ops, "borrow", extra=5))
    # ... of which more is buffered than the reader asks for, so that it fails only after some was validated
    for i in range(int(40 * scale)):
        bnd = "bnd"
        n, m = r.choice([1, 100, 500, 900, 1023, 1024, 1100]), r.choice([600, 900, 1024, 1200])
        d = b"t" * n + r.choice([b"\xff", b"\xff", b"\xc3\x28", b"\xe4\xb8", "\u4e16".encode(), b""]) + b"u" * m
        b = body(bnd, [(head("a"), d), (head("b"), b"x")])
        at = b.index(b"\r\n\r\n") + 4
        o = {"size": r.choice([-1, -1, 3000]), "mem": r.choice([-1, -1, 3000, n + 1]), "text": r.choice(["try", "try", "force", "ignore"])}
        k = r.choice([len(d), len(d) - 1, 1024, n + 1, r.randint(0, len(d))])
        src = [{"n": at}, {"n": k}] if k and r.random() < 0.3 else [{"n": at + k}]
        src += [{"e": r.choice(HARD)}] + chunks(r, len(b))
        if r.random() < 0.4:
            ops = [{"op": "saveall", "o": dict(o, count=-1), "target": "temp", "keep": True, "rest": True}]
        else:
            ops = [{"op": "next"}] + [{"op": "save", "o": o, "target": r.choice(["path", "dir", "temp"])}] * r.choice([1, 2]) + [{"op": "readall"}]
        out.append(sc("txtwin-%d" % i, b, bnd, src, ops, "borrow", extra=5))
    # saves under faults: nothing is lost either
    for i in range(int(60 * scale)):
        b, bnd, parts = rand_body(r, big=0.2, nparts=2)
        src = with_faults(r, chunks(r, len(b)), len(b), r.choice([1, 2]))
        o = {"size": r.choice([-1, 5, 1100]), "mem": r.choice([-1, 0, 3, 1000]), "text": r.choice(["try", "force", "ignore"])}
        ops = [{"op": "next"}, {"op": "save", "o": o, "target": r.choice(["path", "dir", "temp"])}, {"op": "readall"},
               {"op": "readall"}] * 2
        out.append(sc("sv-%d" % i, b, bnd, src, ops, r.choice(["borrow", "owned"]), extra=5))
    return out + models.reader_walks(r, "Reader-walk-errors", int(150 * scale))


NAMES = ["a", "name", "filename", "field one", "x;y", "x=y", "; name=z", "filename=\"q", "n'n", "\u00e9t\u00e9", "a,b", "A", "", " lead",
         "semi;filename=x", "form-data", "a\\b", "%22", "0", "C:\\up\\", "\\", "a\u0085b", "x (1)", "photo (copy).png", "#1", "a\tb", "<a>", "a//b", "a@b", "'a'", "'", "it's", "rock 'n'", "`x`", "(a)", "[0]", "a[]", "{b}", "a*", "*", "utf-8''x", "L" * 300 + "; name=z", ";" * 130 + "=", "e" * 255, "e" * 256 + ";x"]
MIMES = ["text/plain", "text/html", "image/png", "application/octet-stream", "TEXT/plain", "Text/Html", "multipart/mixed",
         "application/x-www-form-urlencoded", "text/x-c", "textual/x", "x-text/plain", "application/vnd.a+json",
         "text/plain; charset=us-ascii", "text/html; charset=ISO-8859-1", "TEXT/plain; Charset=\"utf-16\"", "text/plain; format=flowed",
         "image/png; charset=utf-8", "application/json; charset=utf-8", "text/csv; header=present; charset=windows-1252",
         "image/svg+xml", "application/atom+xml", "application/xhtml+xml", "application/json", "message/rfc822", "model/x+text", "font/text",
         "multipart/mixed; boundary=inner", "multipart/alternative; boundary=\"q q\"", "application/x-text; text=plain"]


def rcase(r, s):
    k = r.randrange(4)
    return s if k == 0 else s.lower() if k == 1 else s.upper() if k == 2 else "".join(r.choice([c.lower(), c.upper()]) for c in s)


def rand_head(r):
    """one valid header block in some notation"""
    sp = lambda: r.choice(["", " ", " ", " ", "  ", "\t"])
    params = [("name", r.choice(NAMES))]
    if r.random() < 0.55:
        params.append(("filename", r.choice(NAMES + ["photo.jpg", "a b.txt"])))
    if r.random() < 0.15:
        params.append((r.choice(["size", "filename*", "x", "creation-date"]), r.choice(["1", "name", "UTF-8''x", "name=evil"])))
    if r.random() < 0.12:  # the first of two counts
        params.append((r.choice(["name", "filename"]), r.choice(["second", "b"])))
    if r.random() < 0.5:
        r.shuffle(params)
    cd = "form-data"
    for k, v in params:
        tok = v and all(c.isalnum() or c in "-_.+" for c in v) and v.isascii()
        if '"' in v:
            v = v.replace('"', "'")
        q = not tok or r.random() < 0.7
        cd += sp().replace("\t", " ") + ";" + sp() + rcase(r, k) + "=" + ('"%s"' % v if q else v)
    lines = [rcase(r, "Content-Disposition") + ":" + sp() + cd]
    if r.random() < 0.6:
        lines.append(rcase(r, "Content-Type") + ":" + sp() + r.choice(MIMES) + r.choice(["", "", "; charset=utf-8", ";charset=UTF-8", "; charset=latin1", "; a=b"]))
    for h in ["Content-Transfer-Encoding: binary", "X-Other: name=\"evil\"; filename=\"worse\"", "Content-Length: 5", "X-Empty:", "Content-Disposition-X: form-data; name=\"evil\"", "Content-Types: image/gif",
              "Content-: x", "Content-Typ: image/gif"]:
        if r.random() < 0.12 and len(lines) < 4:
            lines.append(h)
    if r.random() < 0.08 and len(lines) < 4:
        lines.append(r.choice(["Content-Type: " + r.choice(MIMES), "Content-Disposition: form-data; name=\"other\"; filename=\"o\"", "Content-Disposition: attachment"]))
        if r.random() < 0.5:
            return "\r\n".join(lines).encode()
    if r.random() < 0.6:
        i = lines.index(next(l for l in lines if "form-data" in l and "other" not in l))
        first = lines.pop(i)
        r.shuffle(lines)
        lines.insert(r.randint(0, len([l for l in lines]) if not any("other" in l or "attachment" in l for l in lines) else 0), first)
    return "\r\n".join(lines).encode()


BAD_HEADS = 11


def bad_head(r, k=None):
    k = r.randrange(BAD_HEADS) if k is None else k
    if k == 9:  # the first of two headers counts
        return CRLF.join([b"Content-Disposition: attachment; name=\"b\"", head("a")])
    if k == 10:
        return CRLF.join([head("a"), b"Content-Type: nonsense", b"Content-Type: text/plain"])
    if k == 0:
        return b"Content-Type: text/plain"
    if k == 1:
        return b"Content-Disposition: " + r.choice([b"attachment", b"inline", b"form-data2", b"file", b"xform-data", b"x-form-data", b"form-dat", b"form", b"multipart/form-data",
                                                       b"form-data form-data", b"data", b"name=form-data", b""]) + b'; name="a"'
    if k == 2:
        return b'Content-Disposition: form-data; filename="name=x"'
    if k == 3:
        return head("a") + CRLF + b"Content-Type: " + r.choice([b"text", b"", b"/", b"/plain", b"a b", b";charset=x", b"nonsense"])
    if k == 4:
        return CRLF.join([head("a")] + [b"X-%d: y" % i for i in range(r.choice([4, 5, 8]))])
    if k == 5:
        return b'X-Content-Disposition: form-data; name="a"'
    if k == 6:
        return b'Content-Disposition: form-data; filename="x"; xname="a"'
    if k == 7:
        return b"Content-Disposition: form-data"
    return b'Content-Dispositio: form-data; name="a"'


NOT_FORM_DATA = [b"attachment", b"inline", b"form-data2", b"file", b"xform-data", b"x-form-data", b"form-dat", b"form", b"multipart/form-data", b"form-data form-data", b"data",
                 b"name=form-data", b"", b"form-data-x", b"form-data,", b"formdata", b"form-data\tx", b"\"form-data\"", b"form_data"]


def c05(r, scale):
    out = []
    # every type which only resembles form-data, alone and after a part which is right
    for k, t in enumerate(NOT_FORM_DATA):
        h = b"Content-Disposition: " + t + b'; name="a"'
        for j, ps in enumerate([[(h, b"d")], [(head("a"), b"d"), (h, b"e"), (head("b"), b"f")]]):
            b = body("bnd", ps)
            out.append(sc("type-%d-%d" % (k, j), b, "bnd", [], [], STYLES[(k + j) % len(STYLES)], extra=6))
    for i in range(int(450 * scale)):
        bnd = r.choice(BNDS[:6])
        parts = [(rand_head(r) if r.random() < 0.85 else bad_head(r), rand_data(r, bnd, 2)) for _ in range(r.choice([1, 2, 3, 4]))]
        b = body(bnd, parts)
        if not ok(b, bnd, len(parts)):
            continue
        out.append(sc("h-%d" % i, b, bnd, chunks(r, len(b)), [], r.choice(STYLES), extra=6))
    # systematic: one element at a time
    k = 0
    for nm in NAMES:
        for fn in [None] + NAMES:
            for order in (0, 1):
                k += 1
                if k % max(1, int(4 / scale)):
                    continue
                ps = ['name="%s"' % nm.replace('"', "'")]
                if fn is not None:
                    ps.insert(order, 'filename="%s"' % fn.replace('"', "'"))
                h = ("Content-Disposition: form-data; " + "; ".join(ps)).encode()
                b = body("bnd", [(h, b"d")])
                out.append(sc("nf-%d" % k, b, "bnd"))
    # header blocks of up to 1000 bytes are always understood, larger ones correctly or not at all
    for i in range(int(60 * scale)):
        bnd = r.choice(["B", "bnd", "q" * 70])
        hs = []
        for k in range(r.choice([1, 1, 2])):
            want = r.choice([500, 700, 850, 880, 890, 900, 905, 920, 950, 1000, 1020, 1024, 1030, 1100, 1500, 3000])
            lines = [head("a", "b", None)] + r.choice([[], [b"Content-Type: text/plain"]])
            pad = want - len(CRLF.join(lines)) - 4
            how = r.randrange(4)
            if how == 0:
                lines[0] = head("n" * (pad + 1), "b")
            elif how == 1:
                lines[0] = head("a", "f" * (pad + 1))
            elif how == 2:
                lines.insert(r.randint(0, len(lines)), b"X-Pad: " + b"p" * (pad - 9))
            else:
                lines[0] += b"; x=\"" + b"y" * (pad - 6) + b"\""
            hs.append(CRLF.join(lines))
        b = body(bnd, [(h, b"data%d" % k) for k, h in enumerate(hs)] + [(head("z"), b"last")])
        out.append(sc("long-%d" % i, b, bnd, chunks(r, len(b)), r.choice([[], [{"op": "next"}, {"op": "next"}]]), r.choice(STYLES), extra=6))
    for nh in range(0, 7):
        for pos in range(0, nh + 1):
            hs = [b"X-H%d: v" % i for i in range(nh)]
            hs.insert(pos, head("a"))
            out.append(sc("n-%d-%d" % (nh, pos), body("bnd", [(CRLF.join(hs), b"d"), (head("z"), b"e")]), "bnd", extra=4))
    for m in MIMES + ["text", "", "/", "/x"]:
        b = body("bnd", [(head("a", None, m), b"d"), (head("a", "f", m), b"d")])
        out.append(sc("m-%s" % m, b, "bnd", extra=5))
    return out + models.header_blocks(r, int(900 * scale))


def c06(r, scale):
    out = []
    for i in range(int(70 * scale)):
        b, bnd, parts = rand_body(r, big=0.15)
        k = r.random()
        if k < 0.25:
            b = b[:r.randint(0, len(b))]
        elif k < 0.4 and parts:
            parts2 = list(parts)
            parts2.insert(r.randint(0, len(parts)), (bad_head(r), b"bad"))
            b = body(bnd, parts2)
            if not ok(b, bnd, len(parts2)):
                continue
        src = chunks(r, len(b))
        ops = r.choice([[], [], reads(r, len(parts)), program(r, len(parts))])
        for st in STYLES:
            out.append(sc("s-%d-%s" % (i, st), b, bnd, src, ops, st, extra=4))
    for i in range(int(150 * scale)):
        b, bnd, parts = rand_body(r, big=0.1)
        if r.random() < 0.3:
            b = b[:r.randint(0, len(b))]
        ops = []
        for o in program(r, len(parts) + 3):
            if o["op"] == "next":
                o["style"] = r.choice(STYLES)
            ops.append(o)
        out.append(sc("m-%d" % i, b, bnd, chunks(r, len(b)), ops, r.choice(STYLES), extra=4))
    # each kind of broken header block and each place for it, in every style: what is delivered, the result, and what comes on asking again
    for k in range(BAD_HEADS):
        for at in range(3):
            bnd = r.choice(BNDS[:6])
            parts = [(head("a"), rand_data(r, bnd, 2)), (head("b"), b"second")]
            parts.insert(at, (bad_head(r, k), b"bad"))
            b = body(bnd, parts)
            if not ok(b, bnd, 3):
                continue
            src = chunks(r, len(b))
            for st in STYLES:
                out.append(sc("bad-%d-%d-%s" % (k, at, st), b, bnd, src, [], st, extra=5))
    # the same for a body which stops and a transport which fails between and within the parts
    for i in range(int(12 * scale)):
        bnd = r.choice(BNDS[:6])
        b = body(bnd, [(head("a"), b"first"), (head("b"), b"second" * 3), (head("c"), b"")])
        p = r.randint(0, len(b) - 1)
        how = r.choice(["cut", "fault", "fault"])
        src = [{"n": max(1, p)}, {"e": r.choice(HARD)}] if how == "fault" else chunks(r, len(b))
        for st in STYLES:
            out.append(sc("%s-%d-%s" % (how, i, st), b[:p] if how == "cut" else b, bnd, src, [], st, extra=5))
    for m in MIMES + [None]:
        for st in STYLES:
            b = body("bnd", [(head("a", None, m), b"d")])
            out.append(sc("t-%s-%s" % (m, st), b, "bnd", [], [], st))
    return out


GENERATORS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06}
