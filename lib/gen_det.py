"""Scenarios for the server integrations and the iron middleware (C17, C18)."""
from gen_server import BNDS, CRLF, body, chunks, fill, head, ok, rand_body, rand_data
import gen_save, models

TOKCH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
INTEGS = ["hyper", "iron", "nickel", "tiny"]
NOTMP = ["text/plain", "multipart/mixed; boundary={b}", "application/x-www-form-urlencoded", "multipart/form-data", "multipart/form-data; charset=utf-8",
         "application/json; boundary={b}", "multipart/form-datax; boundary={b}", "image/png", "text/form-data; boundary={b}",
         "multipart/related; boundary={b}", "multipart/form-data; bound={b}", "multipart/form-data; xboundary={b}",
         "multipart/alternative; boundary=\"{b}\"", "application/form-data; boundary={b}", "multipart/form; boundary={b}",
         "xmultipart/form-data; boundary={b}", "multipart/x-form-data; boundary={b}", "multipart/byteranges; boundary={b}"]
ISMP = ["multipart/form-data; boundary={b}", "multipart/form-data;boundary={b}", "Multipart/Form-Data; boundary={b}",
        "MULTIPART/FORM-DATA; BOUNDARY={b}", "multipart/form-data; Boundary={b}", "multipart/form-data; boundary=\"{b}\"",
        "multipart/form-data;  boundary={b}", "multipart/form-data; charset=utf-8; boundary={b}", "multipart/form-data; boundary={b}; charset=utf-8",
        "multipart/form-data; boundary=\"{b}\"; charset=utf-8", "multipart/form-data; charset=UTF-8; boundary=\"{b}\"",
        "multipart/form-data; x=1; y=2; boundary={b}", "multipart/form-data;boundary=\"{b}\""]


def bl(s):
    return list(s.encode())


def boundary(r):
    k = r.random()
    if k < 0.25:
        return r.choice(["utf-8", "UTF-8", "B", "0", "form-data", "boundary", "----WebKitFormBoundary7MA4YWxkTrZu0gW", "q" * 70, "Ab.c_d-e", "x" * 69 + "Y",
                         "---------------------------9051914041544843365972754266", "AaB03x", "a+b", "multipart", "charset", "b^c#d"])
    n = r.choice([1, 2, 5, 16, 30, 70])
    b = r.choice(TOKCH) + "".join(r.choice(TOKCH + "-_.+") for _ in range(n - 1))
    return b if r.random() < 0.8 else ("-" * r.randint(1, 6) + b)[:70]


QUOTED = ["a b", "x:y", "a/b", "q=r", "a(b)c", "comma,d", "why?", "it's", "ab:cd=ef"]


def det(i, integ, method, ctypes, b, **kw):
    d = {"id": i, "kind": "detect", "integ": integ, "method": method, "ctypes": [bl(c) for c in ctypes], "body": list(b),
         "spec": {"integ": integ, "method": bl(method), "ctypes": [bl(c) for c in ctypes], "mockbnd": bl(kw.get("mockbnd", ""))}}
    d.update(kw)
    return d


def a_body(r, bnd):
    for _ in range(30):
        b, _, _ = rand_body(r, bnd, nparts=r.choice([0, 1, 2, 2, 3]), big=0.02)
        return b


def c17(r, scale=1.0):
    out = []

    def add(tag, integ, method, cts, b, **kw):
        via = {"hyper": ["owned", "ref", "switch", "switch"], "nickel": ["maybe", "ext"], "mock": ["buf", "direct"]}.get(integ, ["x"])
        kw.setdefault("via", r.choice(via))
        if r.random() < 0.3:
            kw["te"] = [r.choice([1, 2, 5, 30, 1000]) for _ in range(r.randint(1, 4))]
        if r.random() < 0.3 and integ != "tiny":
            kw["src"] = chunks(r, len(b), r.choice(["one", "small", "mix"]))
        if r.random() < 0.4:
            kw["ctname"] = r.choice(["content-type", "CONTENT-TYPE", "Content-type", "cOnTeNt-TyPe"])
            kw["ctsep"] = r.choice([": ", ":", ":  "])
        out.append(det("c17-%d-%s-%s" % (len(out), integ, tag), integ, method, cts, b, **kw))

    for integ in INTEGS:
        for rep in range(max(1, int(2 * scale))):
            for tmpl in ISMP:
                bnd = boundary(r)
                add("is", integ, "POST", [tmpl.replace("{b}", bnd)], a_body(r, bnd))
            for q in QUOTED:
                add("q", integ, "POST", ["multipart/form-data; boundary=\"%s\"" % q], a_body(r, q))
            for tmpl in NOTMP:
                bnd = boundary(r)
                add("not", integ, "POST", [tmpl.replace("{b}", bnd)], a_body(r, bnd))
            add("noct", integ, "POST", [], a_body(r, "B"))
            bnd = boundary(r)
            add("wrong", integ, "POST", ["multipart/form-data; boundary=other" + bnd], a_body(r, bnd))
    for m in ["GET", "PUT", "HEAD", "DELETE", "PATCH", "OPTIONS"]:
        for via in ["owned", "ref", "switch"]:
            bnd = boundary(r)
            b = b"" if m in ("GET", "HEAD") and r.random() < 0.5 else a_body(r, bnd)
            add("m" + m, "hyper", m, ["multipart/form-data; boundary=" + bnd], b, via=via)
    for via in ["owned", "ref", "switch"]:
        for bnd in ["utf-8", "UTF-8", "Utf-8", "ABC", "aBc"]:
            for t in ISMP[:6]:
                add("case", "hyper", "POST", [t.replace("{b}", bnd)], a_body(r, bnd), via=via)
    for integ, v, bnd in models.type_requests(r, int(150 * scale)):
        add("note", integ, "POST", [v], a_body(r, bnd))
    for i in range(int(20 * scale)):
        bnd = boundary(r)
        add("mock", "mock", "POST", [], a_body(r, bnd), mockbnd=bnd)
    return out


def icp(i, b, ctypes, strict, size, count, parent, method="POST", **kw):
    spec = {"method": bl(method), "ctypes": [bl(c) for c in ctypes], "strict": strict, "size": size, "count": count}
    d = {"id": i, "kind": "intercept", "body": list(b), "method": method, "ctypes": [bl(c) for c in ctypes], "strict": strict, "size": size,
         "count": count, "parent": parent, "spec": spec}
    d.update(kw)
    return d


def parts(r, bnd, n, lens, names=None):
    for _ in range(50):
        ps = []
        for k in range(n):
            ln = r.choice(lens)
            d = fill(r, ln) if r.random() < 0.6 else gen_save.content(r, ln)
            fn = r.choice([None, None, "f.txt", "x.bin", "upload-%d" % k])
            ct = r.choice([None, "text/plain", "image/png"]) if fn is None or r.random() < 0.8 else None
            ps.append((head(r.choice(names or ["a", "b", "c", "f%d" % k, "q%d\u00e9" % k, "part[%d]" % k]), fn, ct), d))
        b = body(bnd, ps)
        if ok(b, bnd, n):
            return b, ps
    raise Exception("no parts")


def c18(r, scale=1.0):
    out = []

    def add(tag, b, bnd, strict, size, count, parent=0, **kw):
        parent = r.choice([None, "missing", "there"]) if parent == 0 else parent
        if r.random() < 0.25:
            kw.setdefault("te", [r.choice([1, 3, 50, 700]) for _ in range(r.randint(1, 4))])
        if r.random() < 0.3:
            kw.setdefault("src", chunks(r, len(b), r.choice(["one", "small", "mix", "big"])))
        out.append(icp("c18-%d-%s" % (len(out), tag), b, kw.pop("ctypes", ["multipart/form-data; boundary=" + bnd]), strict, size, count, parent, **kw))

    for i in range(int(150 * scale)):
        bnd = r.choice(["B", "bnd", "X" * 8])
        n = r.choice([0, 1, 1, 2, 3, 4, 6])
        lens = r.choice([[0, 1, 5, 20], [5, 6, 7], [0, 30, 31], [10], [100, 1030]])
        b, ps = parts(r, bnd, n, lens)
        size = r.choice([0, 1, 4, 5, 6, 10, 29, 30, 31, 1000, 5000])
        count = r.choice([0, 1, 2, n, max(0, n - 1), n + 1, 16])
        add("mix", b, bnd, r.random() < 0.5, size, count)
    # exactly at the limits
    for strict in [True, False]:
        for n in [1, 2, 3, 5]:
            for dc in [-1, 0, 1]:
                b, ps = parts(r, "bnd", n, [3])
                add("count", b, "bnd", strict, 100, max(0, n + dc))
                b, ps = parts(r, "bnd", n, [40])
                add("size", b, "bnd", strict, 40 + dc, 100)
        # several fields over the size limit, at different places
        for k in range(int(8 * scale)):
            b, ps = parts(r, "bnd", 4, [5, 50, 51, 60])
            add("several", b, "bnd", strict, 50, r.choice([1, 2, 3, 4, 5]))
        # far more of them than one would think of, alone and among others
        for n, lens in [(14, [51]), (20, [51]), (40, [51, 5]), (70, [60]), (90, [5, 51, 50])]:
            b, ps = parts(r, "bnd", n, lens)
            for count in [n + 1, n - 1, 3]:
                add("allbig", b, "bnd", strict, 50, count)
        for n in [15, 16, 17, 18]:
            b, ps = parts(r, "bnd", n, [2], names=["n%d" % k for k in range(5)])
            if strict:
                add("default", b, "bnd", True, 2097152, 16, usedefault=True)
            else:
                add("default-lenient", b, "bnd", False, 2097152, 16)
        # fields that go to disk (the default threshold is 10 KiB)
        for size in [20000, 12000, 11000, 8000]:
            for at in range(2):
                ps = [(head("a"), fill(r, 5)), (head("b"), fill(r, 7))]
                ps[at] = (head("big", "big.bin", "image/png"), fill(r, 12000 + r.randint(0, 1)))
                add("disk", body("bnd", ps), "bnd", strict, size, 16, src=[])
        ps = [(head("big%d" % k, "../x", "image/png"), fill(r, 10500)) for k in range(3)]
        for count in [2, 3]:
            add("disk3", body("bnd", ps), "bnd", strict, 20000, count, src=[])
    # broken requests
    for i in range(int(50 * scale)):
        bnd = "bnd"
        n = r.choice([1, 2, 3])
        b, ps = parts(r, bnd, n, [0, 5, 20, 40])
        how = r.choice(["cut", "cut", "cut", "tail", "head", "wrong", "empty"])
        kw = {}
        if how == "cut":
            b = b[:r.randint(0, len(b) - 5)]
        elif how == "tail":
            b = b.rstrip(b"\r\n")[:-2] + b"xx" + b"more"
        elif how == "head":
            k = r.randrange(n)
            ps[k] = (r.choice([b"garbage", b"Content-Disposition: attachment; name=\"a\"", b"X-A: b", b"Content-Disposition: form-data"]), ps[k][1])
            b = body(bnd, ps)
        elif how == "wrong":
            kw["ctypes"] = ["multipart/form-data; boundary=other"]
        else:
            b = b""
        add("broken-" + how, b, bnd, r.random() < 0.4, r.choice([10, 1000]), r.choice([1, 2, 16]), **kw)
    # broken just where a limit is reached, too
    for strict in [True, False]:
        for n in [1, 2, 3]:
            for cut in [2, 3, 4, 5, 8]:
                for count in [n, n - 1, n + 1]:
                    b, ps = parts(r, "bnd", n, [3, 40, 41])
                    b = b[:len(b) - cut]
                    add("broken-limit", b, "bnd", strict, 40, count)
    # not multipart
    for ct in [["text/plain"], [], ["multipart/mixed; boundary=bnd"], ["multipart/form-data"]]:
        for strict in [True, False]:
            b, ps = parts(r, "bnd", 2, [5])
            add("not", b, "bnd", strict, 100, 5, ctypes=ct)
    # the connection fails
    for i in range(int(24 * scale)):
        b, ps = parts(r, "bnd", r.choice([1, 2, 3]), [5, 50])
        k = r.randint(0, len(b) - 1)
        src = ([{"n": k}] if k else []) + [{"e": r.choice(["ConnectionReset", "TimedOut", "Other"])}] * 3
        add("fault", b, "bnd", r.random() < 0.5, r.choice([20, 100]), r.choice([1, 5]), src=src)
    return out + models.icept_walks(r, "Intercept-walk", int(120 * scale))


GENERATORS = {"C17": c17, "C18": c18}
