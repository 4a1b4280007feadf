"""Everything returns: scenarios of all kinds on finite, broken and failing inputs (C19)."""
import gen_client, gen_det, gen_save, gen_server
from gen_save import all_sc, content, dead_writers, opt, save_sc, some
from gen_server import BNDS, CRLF, HARD, STYLES, body, chunks, cut_at, fill, frags, head, rand_body, sc


def pick(r, scs, n, tag):
    scs = list(scs)
    r.shuffle(scs)
    out = scs[:n]
    for s in out:
        s["id"] = tag + "." + s["id"]
    return out


def c19(r, scale=1.0):
    out = []
    n = int(60 * scale)
    out += pick(r, gen_server.c03(r, 1), 2 * n, "c03")
    out += pick(r, gen_server.c04(r, 1), n, "c04")
    out += pick(r, gen_server.c02(r, 1), n, "c02")
    out += pick(r, gen_save.c09(r, 1), n, "c09")
    out += pick(r, gen_save.c10(r, 1), n, "c10")
    out += pick(r, gen_save.c11(r, 1), n, "c11")
    out += pick(r, gen_det.c18(r, 1), n, "c18")
    out += pick(r, gen_client.c14(r, 1), n, "c14")
    out += pick(r, gen_client.c16(r, 1), n, "c16")
    # a writer that takes nothing any more
    some(r, out, n, save_sc, "wz", writer=True)
    out += dead_writers(r)
    # asking again and again after the end, after an error, after a broken body
    for i in range(int(60 * scale)):
        b, bnd, parts = rand_body(r, big=0.1)
        if r.random() < 0.6:
            b = b[:r.randint(0, len(b))]
        ops = []
        for _ in range(r.randint(2, 12)):
            ops += [{"op": "next"}] + [{"op": r.choice(["readall", "fill", "end"])} for _ in range(r.randint(0, 3))]
        out.append(sc("again-%d" % i, b, bnd, chunks(r, len(b)), ops, r.choice(STYLES), extra=8, tail=r.choice([None, None] + HARD)))
    # saves of truncated and failing fields, every mode
    for i in range(int(100 * scale)):
        n = r.choice([0, 1, 4, 30, 1040])
        b = body("bnd", [(head("a", None, r.choice([None, "image/png"])), content(r, n)), (head("b"), b"x")])
        cut = r.randint(60, len(b))
        o = opt(r.choice([-1, 0, 1, n, 2000]), r.choice([-1, 0, 1, n, 2000]), r.choice(["force", "force", "try", "ignore"]))
        ops = [{"op": "next"}] + [{"op": "save", "o": o, "target": r.choice(["path", "dir", "temp"])} for _ in range(r.randint(1, 3))] + [{"op": "next"}]
        if r.random() < 0.4:
            ops = [{"op": "saveall", "o": dict(o, count=r.choice([-1, 0, 1])), "target": "temp", "keep": r.random() < 0.5} for _ in range(r.randint(1, 4))]
        out.append(sc("sv-%d" % i, b[:cut], "bnd", chunks(r, cut), ops, "borrow", extra=4, tail=r.choice([None] + HARD)))
    # saves of fields larger than what was buffered when they began, that fail or end and stay so
    for i in range(int(80 * scale)):
        n = r.choice([1100, 1500, 2100, 3000])
        b = body("bnd", [(head("a", None, r.choice([None, "image/png"])), content(r, n, r.choice(["ascii", "bin"]))), (head("b"), b"x")])
        cut = r.randint(1080, len(b))
        o = opt(r.choice([-1, -1, n, n + 1]), r.choice([-1, 0, 1, n, 1000]), r.choice(["force", "try", "try", "ignore"]))
        ops = [{"op": "next"}, {"op": "save", "o": o, "target": "path"}] if r.random() < 0.5 else [{"op": "next"}, {"op": "writeto", "o": o, "w": []}]
        if r.random() < 0.4:
            ops = [{"op": "saveall", "o": dict(o, count=-1), "target": "temp", "keep": r.random() < 0.5} for _ in range(r.randint(1, 2))]
        out.append(sc("svl-%d" % i, b[:cut], "bnd", chunks(r, cut), ops, "borrow", extra=4, tail=(["WouldBlock", "WouldBlock", None] + HARD)[i % (len(HARD) + 3)]))
    # iterating with a callback that leaves data unread
    for i in range(int(40 * scale)):
        b, bnd, parts = rand_body(r, big=0.2)
        if r.random() < 0.5:
            b = b[:r.randint(0, len(b))]
        ops = []
        for _ in range(r.randint(1, 5)):
            ops += [{"op": "next"}] + r.choice([[], [{"op": "end"}], [{"op": "fill"}, {"op": "end"}], [{"op": "read", "n": 1}, {"op": "end"}]])
        out.append(sc("fe-%d" % i, b, bnd, chunks(r, len(b)), ops, r.choice(["foreach", "foreach", "inplace", "binplace"]), extra=3))
    return out


GENERATORS = {"C19": c19}
