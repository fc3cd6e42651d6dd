"""C14: legacy charsets against their published mappings, and round trips."""
from vlib import charsets, gen, scale
from vlib.driver import Crash, hx, un, counters

SEPS = {"CCCII": b"\x21\x21\x21"}


def run(ck):
    r = ck.r
    ref = charsets.load()
    ck.rule = ("every one and two byte code of every page (three byte ones of CCCII) decoded, every character assigned in Unicode 13 plus the private use area encoded, against Python's codec for that page and the reviewed deviations "
               "(pages unknown to Python: the mapping as reviewed, in full); codes outside the mapping must count an error and characters outside it exactly one; then random text over the characters that round-trip, mixed with "
               "ASCII, whole and in pieces, must survive. Distinct: (page, direction, code or text)")
    ck.assumptions = ["NUL belongs to the codec 00", "deviations from Python's tables are listed in vlib/data/charsets.json.xz and grouped in DESIGN.md"]
    cases, meta = [], []
    back = {}
    for name, py in charsets.FROM.items():
        dev = {bytes.fromhex(k): v for k, v in ref["from"][name].items()}
        good, bad = [], []
        want = {}
        codes = charsets.codes(name)
        have = set(codes)
        for c in codes + [c for c in dev if c not in have]:
            w = dev[c] if c in dev else charsets.pydec(py, c)
            want[c] = w
            (bad if w is None else good).append(c)
        if name == "CCCII":
            for _ in range(ck.n(3000, 60000)):
                c = bytes(r.randrange(0x21, 0x7f) for _ in range(3))
                if c not in want and c[0] != 0x0a:
                    want[c] = None
                    bad.append(c)
        back[name] = want
        r.shuffle(bad)
        bad = bad[:ck.n(6000, 10**9)]
        sep = b"\x0a" if name not in ("IBM-37", "CCCII") else b""
        if name == "CP932":
            good = [c for c in good]
        for i in range(0, len(good), 128):
            part = good[i:i + 128]
            cases.append(["N 0 " + hx(name + ":UTF-8"), "O 0 " + hx(b"".join(c + sep for c in part))])
            meta.append(("dec", name, part, want, sep))
        for i in range(0, len(bad), 500):
            part = bad[i:i + 500]
            cases.append(["N 0 " + hx(name + ":UTF-8")] + ["O 0 " + hx(c) for c in part])
            meta.append(("undec", name, part, want, sep))
    U = charsets.universe()
    fore = {}
    for name, py in charsets.TO.items():
        dev = {int(k, 16): v for k, v in ref["to"][name].items()}
        good, bad = [], []
        want = {}
        for c in U:
            w = (None if dev[c] is None else bytes.fromhex(dev[c])) if c in dev else charsets.pyenc(py, c)
            want[c] = w
            (bad if w is None else good).append(c)
        fore[name] = want
        for i in range(0, len(good), 128):
            part = good[i:i + 128]
            cases.append(["N 0 " + hx("UTF-32BE:" + name), "O 0 " + hx(b"".join(c.to_bytes(4, "big") for c in part))])
            meta.append(("enc", name, part, want, b""))
        for i in range(0, len(bad), 512):
            part = bad[i:i + 512]
            cases.append(["N 0 " + hx("UTF-32BE:" + name), "O 0 " + hx(b"".join(c.to_bytes(4, "big") for c in part))])
            meta.append(("unenc", name, part, want, b""))
    cov = {"decode": 0, "decode_error": 0, "encode": 0, "encode_error": 0, "round_trip": 0}
    again, ameta = [], []
    for L, x, (kind, name, part, want, sep) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "%s %s" % (kind, name), commands=L)
            continue
        if not x[0].startswith("ok"):
            ck.violation("create:%s:%s" % (kind, name), "%s cannot be created: %s" % (name, x[0]), commands=L[:1])
            continue
        if kind == "undec":
            for c, y in zip(part, x[1:]):
                ck.saw(("d", name, c))
                cov["decode_error"] += 1
                k = counters(y.split(" ")[1])
                if not k.get("IERR") and not k.get("OERR"):
                    ck.violation("undec:%s" % name, "%s: code %s is not in the mapping, yet decodes to %r without an error" % (name, c.hex(), un(y.split(" ")[0])), codec=name, code=c.hex())
            continue
        if " " not in x[1]:
            ck.violation("create:%s:%s" % (kind, name), "%s cannot be used: %s" % (name, x[1]), commands=L)
            continue
        o, k = x[1].split(" ")
        o = un(o) or b""
        k = counters(k)
        if kind == "dec":
            w = b"".join(want[c].encode() + sep for c in part)
            ok = o == w and not k.get("IERR") and not k.get("OERR")
        elif kind == "enc":
            w = b"".join(want[c] for c in part)
            ok = o == w and not k.get("IERR") and not k.get("OERR")
        else:
            ok = not o and k.get("OERR") == len(part)
        cov[{"dec": "decode", "enc": "encode", "unenc": "encode_error"}[kind]] += len(part)
        for c in part:
            ck.saw((kind[-3:], name, c))
        if not ok:
            again.append([L[0]] + ["O 0 " + hx(c if kind == "dec" else c.to_bytes(4, "big")) for c in part])
            ameta.append((kind, name, part, want, L))
    for A, x, (kind, name, part, want, L) in zip(again, ck.run("asan", again), ameta):
        if isinstance(x, Crash):
            ck.crash(x, "%s %s" % (kind, name), commands=A)
            continue
        n = 0
        for c, y in zip(part, x[1:]):
            o, k = y.split(" ")
            o = un(o) or b""
            k = counters(k)
            e = k.get("IERR", 0) + k.get("OERR", 0)
            w = want[c]
            if isinstance(w, str):
                w = w.encode()
            if kind == "unenc":
                if o or e != 1:
                    n += 1
                    ck.violation("unenc:%s" % name, "to %s: U+%04X is not in the mapping, yet gives %s with %d errors" % (name, c, o.hex(), e), codec=name, char="%x" % c)
            elif o != w or e:
                n += 1
                what = "%s: code %s" % (name, c.hex()) if kind == "dec" else "to %s: U+%04X" % (name, c)
                ck.violation("%s:%s" % (kind, name), "%s gives %s with %d errors, the mapping says %s" % (what, o.hex(), e, w.hex()), codec=name, item=str(c))
        if not n:
            ck.violation("%s-run:%s" % (kind, name), "%s: every item is right alone, but not one after another" % name, commands=L)
    doubled(ck, r, cov)
    # round trips of text
    cases, meta = [], []
    for name, py in charsets.TO.items():
        if name not in charsets.FROM:
            continue
        chars = [c for c, w in fore[name].items() if w is not None and back[name].get(w) == chr(c)]
        if name == "IBM-37":
            ascii_ = []
        else:
            ascii_ = [c for c in chars if c < 0x80]
        cov.setdefault("round_trip_characters", {})[name] = len(chars)
        L = ["N 0 " + hx("UTF-8:" + name), "N 1 " + hx(name + ":UTF-8")]
        lay = []
        for far in [None] * ck.n(300, 20000) + scale.pick(r, ck.n(1, 8)):
            s = "".join(chr(r.choice(ascii_ if ascii_ and r.random() < 0.3 else chars)) for _ in range(far or r.choice([2, 3, 5, 20, 60])))
            enc = b"".join(fore[name][ord(ch)] for ch in s)
            lay.append((s, enc, len(L)))
            L.append("O 0 " + hx(s.encode()))
            cs = gen.split(r, enc) if r.random() < 0.5 else [enc]
            L.append("I 1")
            for j, c in enumerate(cs):
                L.append("F 1 A %d 1 %s 0" % (j == len(cs) - 1, hx(c)))
            lay[-1] += (len(L),)
            if len(L) > 4000:
                cases.append(L)
                meta.append((name, lay))
                L, lay = L[:2], []
        cases.append(L)
        meta.append((name, lay))
    for L, x, (name, lay) in zip(cases, ck.run("asan", cases), meta):
        if isinstance(x, Crash):
            ck.crash(x, "round trip " + name, commands=L)
            continue
        for s, enc, a, e in lay:
            cov["round_trip"] += 1
            ck.saw(("rt", name, s))
            o, k = x[a].split(" ")
            if un(o) != enc:
                ck.violation("rt-enc:" + name, "UTF-8:%s of %r gives %s, not %s" % (name, s, o, enc.hex()), codec=name, text=s)
            g = b"".join(un(y) or b"" for y in x[a + 2:e])
            if g != s.encode():
                ck.violation("rt-dec:" + name, "%s of %s gives %r, not %r (%d pieces)" % (name, enc.hex(), g, s, e - a - 2), codec=name, text=s, commands=L[:2] + L[a:e])
    ck.cov["observed"] = cov


def doubled(ck, r, cov):
    """Big5 text of which the second bytes 5C have been doubled; bytes taken for the characters of the same number"""
    T = {}
    for a in range(0x81, 0xff):
        try:
            T[bytes([a, 0x5c])] = bytes([a, 0x5c]).decode("cp950")
        except UnicodeDecodeError:
            pass
    T.pop(b"\xc7\x5c", None)          # not in Microsoft's table, which these codecs follow
    plain = [c for c in "的一是不了人我在有他a Z中文"]
    want = [("BIG5-5C:UTF-8", k + b"\\", v.encode(), 0) for k, v in T.items()]
    want += [("UTF-8:BIG5-5C", v.encode(), k + b"\\", 0) for k, v in T.items()]
    for _ in range(ck.n(400, 8000)):
        s = "".join(r.choice(list(T.values())) if r.random() < 0.5 else r.choice(plain) for _ in range(r.choice([1, 3, 10, 40])))
        b = b"".join(c.encode("cp950") + b"\\" * (c in T.values()) for c in s)
        for big5 in ("BIG5", "CP950"):
            want += [("BIG5-5C,%s:UTF-8" % big5, b, s.encode(), 0), ("UTF-8:BIG5-5C,%s" % big5, s.encode(), b, 0)]
        b2 = b"".join(c.encode("cp950") + b"\\" * (c in T.values() and r.random() < 0.5) for c in s)
        t, i = "", 0
        while i < len(b2):
            k = 3 if b2[i:i + 2] in T and b2[i + 2:i + 3] == b"\\" else 2 if b2[i] >= 0x80 else 1
            t += b2[i:i + min(k, 2)].decode("cp950")
            i += k
        want.append(("BIG5-5C,CP950:UTF-8", b2, t.encode(), 0))
    want += [("FALLBACK-UNICODE:UTF-32BE", bytes([a]), bytes([0, 0, 0, a]), 0) for a in range(256)] + [("FALLBACK-UNICODE:UTF-32BE", bytes(range(256)), b"".join(bytes([0, 0, 0, a]) for a in range(256)), 0)]
    cov["doubled_5c"] = len(want)
    for (c, b, w, e), x in zip(want, ck.run("asan", [["X %s %s" % (hx(c), hx(b))] for c, b, w, e in want])):
        if isinstance(x, Crash):
            ck.crash(x, c, input=b.hex())
            continue
        ck.saw((c, b))
        g, k = x[0].split(" ")
        if g == "null" or (un(g) or b"") != w or any(counters(k).get(n, 0) for n in ("IERR", "OERR")):
            ck.violation("5c:" + c, "%s of %s gives %s, not %s" % (c, b.hex(), x[0], w.hex()), conversion=c, input=b.hex())
